// C18 densities and samplers, C19 training objectives and training, C20 adaptive training.
#include "invsafe.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include <sstream>
typedef long double ld;
typedef std::shared_ptr<mpart::DensityBase<HS>> DenP;
typedef std::shared_ptr<mpart::SampleGenerator<HS>> SamP;
using mpart::GaussianSamplerDensity;
static const ld LOG2PI=1.8378770664093454835606594728112352797L;

// ---------------------------------------------------------------- reference densities
struct RefG { int d=0; bool hasMean=false,hasCov=false; std::vector<double> mu; std::vector<std::vector<double>> S; std::vector<std::vector<ld>> P; ld logdet=0; double cond=1; std::vector<std::vector<ld>> L;
  void init(){ if(mu.empty()) mu.assign(d,0); if(!hasCov) return;
    L.assign(d,std::vector<ld>(d,0)); for(int j=0;j<d;++j){ ld s=S[j][j]; for(int k=0;k<j;++k) s-=L[j][k]*L[j][k]; L[j][j]=sqrtl(s); for(int i=j+1;i<d;++i){ ld t=S[i][j]; for(int k=0;k<j;++k) t-=L[i][k]*L[j][k]; L[i][j]=t/L[j][j]; } }
    logdet=0; for(int i=0;i<d;++i) logdet+=2*logl(L[i][i]);
    std::vector<std::vector<ld>> Li(d,std::vector<ld>(d,0)); for(int j=0;j<d;++j){ Li[j][j]=1/L[j][j]; for(int i=j+1;i<d;++i){ ld t=0; for(int k=j;k<i;++k) t-=L[i][k]*Li[k][j]; Li[i][j]=t/L[i][i]; } }
    P.assign(d,std::vector<ld>(d,0)); ld np=0,ns=0; for(int i=0;i<d;++i) for(int j=0;j<d;++j){ for(int k=std::max(i,j);k<d;++k) P[i][j]+=Li[k][i]*Li[k][j]; np+=P[i][j]*P[i][j]; ns+=ld(S[i][j])*S[i][j]; } cond=double(sqrtl(np)*sqrtl(ns)); }
  ld prec(int i,int j) const { return hasCov? P[i][j] : ld(i==j); }
  // value with an error bound, and gradient
  void at(std::vector<double> const& x,double& v,double& ev,std::vector<double>& g,std::vector<double>& eg) const {
    ld q=0,mag=0; g.assign(d,0); eg.assign(d,0); ld nx=0,np=0; for(int i=0;i<d;++i){ nx+=fabsl(ld(x[i])-mu[i])+1e-16L*(fabsl(x[i])+fabsl(mu[i])); for(int j=0;j<d;++j) np=std::max(np,fabsl(prec(i,j))); }
    for(int i=0;i<d;++i){ ld s=0; for(int j=0;j<d;++j){ ld t=prec(i,j)*(ld(x[j])-mu[j]); s+=t; mag+=fabsl(t*(ld(x[i])-mu[i])); } q+=s*(ld(x[i])-mu[i]); g[i]=double(-s); }
    ld round=0; for(int i=0;i<d;++i) round=std::max(round,fabsl(ld(x[i]))+fabsl(ld(mu[i])));
    for(int i=0;i<d;++i) eg[i]=double(4e-16L*d*cond*np*nx+4e-16L*d*np*round)+1e-300;
    v=double(-0.5L*q-0.5L*(d*LOG2PI+logdet)); ev=double(4e-16L*d*cond*(np*nx*nx)+8e-16L*np*nx*round*d+4e-16L*d*(1+fabsl(logdet)))+4e-16*d*cond+4e-16*std::fabs(v)+1e-300; }
  J logpdf(std::vector<J> const& y) const { J q(0.0); for(int i=0;i<d;++i) for(int j=0;j<d;++j){ double p=double(prec(i,j)); if(p==0) continue; E pe(p,hasCov? 4e-16*cond*std::fabs(double(P[i][i]))*d:0); q=q+J(pe)*(y[i]-J(mu[i]))*(y[j]-J(mu[j])); }
    double k=double(0.5L*(d*LOG2PI+logdet)); return J(-0.5)*q-J(E(k,4e-16*(d*cond+std::fabs(k)))); }
};
static Arr meanArr(Rng& r,RefG const& G){ Arr a(1,G.d,r.pick({0,1,2,4})); for(int i=0;i<G.d;++i) a.at(0,i)=G.mu[i]; return a; }
static RefG genG(Rng& r,int d,bool wide){ RefG G; G.d=d; int k=r.i(0,4); G.hasMean=k==1||k>=3; G.hasCov=k>=2; double sc= wide? std::pow(10.0,r.u(-7,7)) : r.u(0.3,2);
  if(G.hasMean){ G.mu.resize(d); for(auto&v:G.mu) v= wide? r.n()*sc*r.pick({0.1,1.0,30.0}) : r.n(); }
  if(G.hasCov){ std::vector<std::vector<double>> L(d,std::vector<double>(d,0)); double off=r.pick({0.0,0.2,1.0}); for(int i=0;i<d;++i){ L[i][i]=sc*r.u(0.4,1.6); for(int j=0;j<i;++j) L[i][j]=off*sc*r.n()/std::sqrt(double(d)); }
    G.S.assign(d,std::vector<double>(d,0)); for(int i=0;i<d;++i) for(int j=0;j<=i;++j){ double s=0; for(int q=0;q<=j;++q) s+=L[i][q]*L[j][q]; G.S[i][j]=G.S[j][i]=s; } }
  G.init(); return G; }
struct Held { Arr mean,cov; std::shared_ptr<GaussianSamplerDensity<HS>> g; std::shared_ptr<mpart::Distribution<HS>> dist; };
static Held buildG(Rng& r,RefG const& G,int how=-1){ Held h; if(G.hasMean) h.mean=meanArr(r,G); if(G.hasCov){ h.cov=Arr(G.d,G.d,r.i(0,5)); for(int i=0;i<G.d;++i) for(int j=0;j<G.d;++j) h.cov.at(i,j)=G.S[i][j]; }
  typedef mpart::StridedVector<double,HS> V; typedef mpart::StridedMatrix<double,HS> M; if(how<0) how=r.i(0,2);
  if(how==0){ if(G.hasMean&&G.hasCov) h.dist=mpart::CreateGaussianDistribution<HS>(V(h.mean.rowv()),M(h.cov.m())); else if(G.hasCov) h.dist=mpart::CreateGaussianDistribution<HS>(M(h.cov.m())); else if(G.hasMean) h.dist=mpart::CreateGaussianDistribution<HS>(V(h.mean.rowv())); else h.dist=mpart::CreateGaussianDistribution<HS>((unsigned)G.d);
    h.g=std::dynamic_pointer_cast<GaussianSamplerDensity<HS>>(h.dist->GetSampler()); }
  else { if(G.hasMean&&G.hasCov) h.g=std::make_shared<GaussianSamplerDensity<HS>>(V(h.mean.rowv()),M(h.cov.m())); else if(G.hasCov) h.g=std::make_shared<GaussianSamplerDensity<HS>>(M(h.cov.m())); else if(G.hasMean) h.g=std::make_shared<GaussianSamplerDensity<HS>>(V(h.mean.rowv())); else h.g=std::make_shared<GaussianSamplerDensity<HS>>(unsigned(G.d));
    h.dist=std::make_shared<mpart::Distribution<HS>>(h.g,h.g); }
  // the covariance is factorized at construction: the caller may reuse its array afterwards
  if(G.hasCov&&r.b(0.5)) h.cov.fill(-3);
  return h; }
static std::string show(RefG const& G){ return S()<<"gauss d"<<G.d<<(G.hasMean?" mean="+vstr(G.mu):"")<<(G.hasCov&&G.d<5?[&]{ std::string s=" cov="; for(auto&w:G.S) s+=vstr(w); return s; }():std::string(G.hasCov?" cov":"")); }

// a user-defined (unnormalized) density
struct Quartic: mpart::DensityBase<HS> { double a; Quartic(int d,double a_): mpart::DensityBase<HS>(d),a(a_){}
  void LogDensityImpl(mpart::StridedMatrix<const double,HS> const& p,mpart::StridedVector<double,HS> o) override { for(size_t j=0;j<p.extent(1);++j){ double s=0; int d=p.extent(0); for(int i=0;i<d;++i){ double y=p(i,j); s-=a*y*y*y*y+0.5*y*y; } s+=0.3*p(0,j)*p(d-1,j); o(j)=s; } }
  void LogDensityInputGradImpl(mpart::StridedMatrix<const double,HS> const& p,mpart::StridedMatrix<double,HS> o) override { int d=p.extent(0); for(size_t j=0;j<p.extent(1);++j){ for(int i=0;i<d;++i){ double y=p(i,j); o(i,j)=-4*a*y*y*y-y; } o(0,j)+=0.3*p(d-1,j); o(d-1,j)+=0.3*p(0,j); } } };
struct RefD { bool quartic=false; double a=0; RefG G; Held h; DenP den; SamP sam; std::shared_ptr<mpart::Distribution<HS>> dist;
  J logpdf(std::vector<J> const& y) const { if(!quartic) return G.logpdf(y); J s(0.0); for(auto&v:y){ J q=v*v; s=s-J(a)*q*q-J(0.5)*q; } return s+J(0.3)*y.front()*y.back(); }
  std::string str() const { return quartic? std::string(S()<<"quartic "<<a) : show(G); } };
static RefD genD(Rng& r,int d,bool needSampler=false){ RefD D; if(!needSampler&&r.b(0.25)){ D.quartic=true; D.a=r.u(0.01,0.3); D.G.d=d; D.den=std::make_shared<Quartic>(d,D.a); return D; }
  D.G=genG(r,d,false); D.h=buildG(r,D.G); D.den=D.h.g; D.sam=D.h.g; D.dist=D.h.dist; return D; }

// ---------------------------------------------------------------- density calls through every interface
static std::vector<double> callLog(mpart::DensityBase<HS>& d,Cols const& X,int rows,Mode const& md,Ctx& c,std::string const& key,std::shared_ptr<mpart::Distribution<HS>> dist={}){
  int N=X.size(); Arr x(X,rows,md.kin); std::vector<double> o(N); auto rx=x.raw();
  if(md.api==IMPL){ Arr out(1,N,md.kout); out.fill(md.fill); if(dist) dist->LogDensityImpl(x.c(),out.rowv()); else d.LogDensityImpl(x.c(),out.rowv()); for(int j=0;j<N;++j) o[j]=out.at(0,j); c.check(out.padsIntact(),key+"-pads","wrote outside the output vector"); }
  else if(md.api==VIEW||dist){ auto v= dist? dist->LogDensity(x.c()) : d.LogDensity(x.c()); if(!c.check(int(v.extent(0))==N,key+"-shape","wrong number of log densities")) return {}; for(int j=0;j<N;++j) o[j]=v(j); }
  else { Eigen::RowMatrixXd e=toEigen(X,rows); Eigen::VectorXd v; if(md.kin>=2){ Eigen::RowMatrixXd big=Eigen::RowMatrixXd::Constant(rows+2,N+3,arr::PAD); big.block(1,2,rows,N)=e; v=d.LogDensity(big.block(1,2,rows,N)); } else v=d.LogDensity(e); if(!c.check(v.size()==N,key+"-shape","wrong number of log densities")) return {}; for(int j=0;j<N;++j) o[j]=v(j); }
  c.check(rx.empty()||!std::memcmp(rx.data(),x.raw().data(),rx.size()*8),key+"-input","modified its points"); return o; }
static Cols callGrad(mpart::DensityBase<HS>& d,Cols const& X,int rows,int orows,bool coeff,Mode const& md,Ctx& c,std::string const& key,std::shared_ptr<mpart::Distribution<HS>> dist={}){
  int N=X.size(); Arr x(X,rows,md.kin); auto* p=dynamic_cast<mpart::PullbackDensity<HS>*>(&d); Cols o;
  if(md.api==IMPL){ Arr out(orows,N,md.kout); out.fill(md.fill); if(coeff) p->LogDensityCoeffGradImpl(x.c(),out.m()); else if(dist) dist->LogDensityInputGradImpl(x.c(),out.m()); else d.LogDensityInputGradImpl(x.c(),out.m()); c.check(out.padsIntact(),key+"-pads","wrote outside the output matrix"); return out.cols(); }
  if(md.api==VIEW||dist){ auto v= coeff? p->LogDensityCoeffGrad(x.c()) : dist? dist->LogDensityInputGrad(x.c()) : d.LogDensityInputGrad(x.c()); o=colsOf(v); if(!c.check(int(v.extent(0))==orows&&int(v.extent(1))==N,key+"-shape","gradient has the wrong shape")) return {}; return o; }
  Eigen::RowMatrixXd e=toEigen(X,rows),v; Eigen::RowMatrixXd big=Eigen::RowMatrixXd::Constant(rows+2,N+3,arr::PAD); big.block(1,2,rows,N)=e; Eigen::Ref<const Eigen::RowMatrixXd> ref= md.kin>=2? Eigen::Ref<const Eigen::RowMatrixXd>(big.block(1,2,rows,N)) : Eigen::Ref<const Eigen::RowMatrixXd>(e);
  v= coeff? p->LogDensityCoeffGrad(ref) : d.LogDensityInputGrad(ref);
  if(!c.check(v.rows()==orows&&v.cols()==N,key+"-shape",[&]{return S()<<"gradient is "<<v.rows()<<"x"<<v.cols()<<" instead of "<<orows<<"x"<<N;})) return {}; return fromEigen(v); }

static void gaussCase(Ctx& c){ Rng& r=c.rng; int d= r.b(0.1)? r.i(10,60):r.i(1,5); int N=r.pick({0,1,1,2,3,5,8}); RefG G=genG(r,d,r.b(0.6)); Mode md=genMode(r); Held h=buildG(r,G); bool viaDist=r.b(0.4);
  Cols X; double sc= G.hasCov? std::sqrt(G.S[0][0]):1; for(int j=0;j<N;++j){ std::vector<double> x(d); double f=r.pick({0.5,1.0,1.0,20.0}); for(int i=0;i<d;++i) x[i]=G.mu[i]+f*sc*r.n(); X.push_back(x); }
  c.describe(show(G)+" N="+std::to_string(N)+" "+maps::show(md)+(N?" x0="+vstr(X[0]):"")); c.cover(S()<<"g"<<d<<G.hasMean<<G.hasCov<<md.api<<md.kin<<md.kout<<viaDist);
  c.check(int(h.dist->Dim())==d&&int(h.g->mpart::GaussianSamplerDensity<HS>::Dim())==d,"gauss-dim","wrong dimension");
  auto o=callLog(*h.g,X,d,md,c,"gauss-logdensity",viaDist?h.dist:nullptr);
  Mode m2=genMode(r); Cols gr=callGrad(*h.g,X,d,d,false,m2,c,"gauss-gradient",viaDist?h.dist:nullptr);
  for(int j=0;j<N&&j<int(o.size());++j){ double v,ev; std::vector<double> g,eg; G.at(X[j],v,ev,g,eg);
    c.check(std::fabs(o[j]-v)<=8*ev,"gauss-logdensity",[&]{return S()<<"log density "<<o[j]<<" expected "<<v<<" (bound "<<8*ev<<")";});
    for(int i=0;i<d&&j<int(gr.size());++i) if(!c.check(std::fabs(gr[j][i]-g[i])<=8*eg[i],"gauss-gradient",[&]{return S()<<"gradient entry ("<<i<<","<<j<<") "<<gr[j][i]<<" expected "<<g[i]<<" (bound "<<8*eg[i]<<") mode "<<maps::show(m2);})) break; }
  if(G.hasMean){ bool same=true; for(int i=0;i<d;++i) if(h.mean.at(0,i)!=G.mu[i]) same=false; c.check(same&&h.mean.padsIntact(),"gauss-mean-modified","the mean array was modified"); }
  c.count("gaussian_points",N); }

static Cols draw(SamP s,int N,int kind,Ctx& c,std::shared_ptr<mpart::Distribution<HS>> dist={}){ int d=s->Dim(); if(kind<0){ Cols o; if(dist){ auto v=dist->Sample(N); o=colsOf(v); } else { auto v=s->Sample(N); o=colsOf(v); } c.check(int(o.size())==N&&(!N||int(o[0].size())==d),"sample-shape","Sample has the wrong shape"); return o; }
  Arr a(d,N,kind); if(dist) dist->SampleImpl(a.m()); else s->SampleImpl(a.m()); c.check(a.padsIntact(),"sample-pads","SampleImpl wrote outside its output"); return a.cols(); }
static void sampleCase(Ctx& c){ Rng& r=c.rng; int d=r.i(1,4); RefG G=genG(r,d,r.b(0.3)); Held h=buildG(r,G); unsigned seed=r.next(); int N=r.pick({1,3,17,2000,8000}); int k1=r.i(-1,5),k2=r.i(-1,5); bool viaDist=r.b();
  c.describe(show(G)+S().operator<<(" samples N=").operator std::string()+std::to_string(N)+" layouts "+std::to_string(k1)+","+std::to_string(k2)); c.cover(S()<<"s"<<d<<G.hasMean<<G.hasCov<<N<<k1<<k2);
  bool one=Kokkos::DefaultHostExecutionSpace().concurrency()==1;
  auto seedIt=[&](Held& x,unsigned s){ if(viaDist) x.dist->SetSeed(s); else x.g->SetSeed(s); };
  seedIt(h,seed); Cols a=draw(h.g,N,k1,c,viaDist?h.dist:nullptr), a2=draw(h.g,N,k2,c); seedIt(h,seed); Cols b=draw(h.g,N,k2,c), b2=draw(h.g,N,k1,c);
  if(one){ c.check(sameBits(a,b),"sample-not-repeatable",[&]{return "the same seed gave different samples: "+showDiff(a,b);}); c.check(sameBits(a2,b2),"sample-not-repeatable",[&]{return "the same seed gave different second batches: "+showDiff(a2,b2);});
    Held h2=buildG(r,G); seedIt(h2,seed); Cols e=draw(h2.g,N,k1,c); c.check(sameBits(a,e),"sample-not-repeatable","another object with the same seed gave different samples"); }
  c.check(!sameBits(a,a2),"sample-repeats","two batches without reseeding are identical");
  seedIt(h,seed+1); Cols f=draw(h.g,N,k1,c); c.check(!sameBits(a,f),"seed-ignored","different seeds gave the same samples");
  for(auto&x:a) for(double v:x) c.check(std::isfinite(v),"sample-not-finite","sample is not finite");
  if(N>=2000){ // whiten and compare with a standard normal
    std::vector<std::vector<double>> Z; for(auto&x:a){ std::vector<double> z(d); for(int i=0;i<d;++i){ ld t=ld(x[i])-G.mu[i]; if(G.hasCov){ for(int k=0;k<i;++k) t-=G.L[i][k]*z[k]; t/=G.L[i][i]; } z[i]=double(t); } Z.push_back(z); }
    double n=N; for(int i=0;i<d;++i){ double m=0,m4=0,m3=0; for(auto&z:Z){ m+=z[i]; m3+=z[i]*z[i]*z[i]; m4+=std::pow(z[i],4); }
      c.check(std::fabs(m/n)<=7/std::sqrt(n),"sample-mean",[&]{return S()<<"mean of coordinate "<<i<<" is off by "<<m/n<<" standard deviations";});
      c.check(std::fabs(m3/n)<=7*std::sqrt(15/n),"sample-skew",[&]{return S()<<"third moment of coordinate "<<i<<" is "<<m3/n;}); c.check(std::fabs(m4/n-3)<=7*std::sqrt(96/n),"sample-kurtosis",[&]{return S()<<"fourth moment of coordinate "<<i<<" is "<<m4/n;});
      for(int k=0;k<=i;++k){ double s=0,l=0; for(size_t q=0;q<Z.size();++q){ s+=Z[q][i]*Z[q][k]; if(q) l+=Z[q][i]*Z[q-1][k]; } double ex=i==k; c.check(std::fabs(s/n-ex)<=7*std::sqrt((1+ex)/n),"sample-covariance",[&]{return S()<<"whitened covariance ("<<i<<","<<k<<") is "<<s/n<<" expected "<<ex;}); c.check(std::fabs(l/n)<=7/std::sqrt(n),"sample-autocorrelation",[&]{return S()<<"consecutive samples are correlated: ("<<i<<","<<k<<") "<<l/n;}); } 
      std::set<double> u; for(auto&z:Z) u.insert(z[i]); c.check(u.size()>=Z.size()-3,"sample-duplicates",[&]{return S()<<"only "<<u.size()<<" distinct values in "<<Z.size()<<" samples";}); } c.count("moment_tests"); }
  c.count("samples_drawn",5*N); }

static bool hasLDC(Node const& n){
  if(auto p=dynamic_cast<Tri const*>(&n)){ for(auto&b:p->b) if(!hasLDC(*b)) return false; return true; }
  if(auto p=dynamic_cast<Compos const*>(&n)){ for(size_t k=0;k<p->b.size();++k) if(!hasLDC(*p->b[k])||!p->b[k]->hasLogdetInputGrad()) return false; return true; }
  return true; }
static bool isConstMap(Node const& n){ return n.nc==0; }
static bool make(Ctx& c,GenOpt const& g,Instance& I,int N,std::function<bool(Node const&)> ok={}){ for(int t=0;t<40;++t){ NodeP n=genMap(c.rng,g); if(ok&&!ok(*n)) continue; if(genInstance(c.rng,n,N,I)) return true; } c.count("no_instance"); return false; }
// reference pullback log density: value, or derivative with respect to inputs or coefficients
static std::vector<E> refPull(Node const& n,RefD const& D,std::vector<double> const& x,std::vector<double> const& cf,int what){ int sv=JN(); JN()= what==1? n.inDim : what==2? n.nc : 0; std::vector<J> xj,cj,y; for(int i=0;i<n.inDim;++i) xj.push_back(what==1?var(x[i],i):J(x[i])); for(int i=0;i<n.nc;++i) cj.push_back(what==2?var(cf[i],i):J(cf[i]));
  n.eval(xj,cj.data(),y); J l=D.logpdf(y)+n.logdet(xj,cj.data()); std::vector<E> o; if(!what) o.push_back(l.v); else for(int i=0;i<JN();++i) o.push_back(l.d(i)); JN()=sv; return o; }
static void pullCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.needLogdetInputGrad=r.b(0.6); g.maxTerms=8; g.maxCoef=20; Instance I; int N=r.i(1,4); if(!make(c,g,I,N)) return; Node& n=*I.n; RefD D=genD(r,n.outDim);
  MapP m=buildWith(n,I.c); auto p=std::make_shared<mpart::PullbackDensity<HS>>(m,D.den); std::shared_ptr<mpart::Distribution<HS>> dist; if(D.dist&&n.inDim==n.outDim&&r.b()) { dist=mpart::CreatePullback<HS>(m,D.dist); }
  mpart::DensityBase<HS>& d= dist? *dist->GetDensity() : *p; Mode md=genMode(r); c.describe("pullback of "+D.str()+" by "+descr(n)+" c="+vstr(I.c)+" x0="+vstr(I.x[0])+" "+maps::show(md)); c.cover("pull"+shape(n)+std::to_string(D.quartic*8+D.G.hasMean*2+D.G.hasCov));
  Cmp cm; auto o=callLog(d,I.x,n.inDim,md,c,"pullback-logdensity",dist); for(size_t j=0;j<o.size();++j){ auto R=refPull(n,D,I.x[j],I.c,0); c.eval(); if(!close(o[j],R[0],cm,128)) c.fail("pullback-logdensity:"+n.kind(),ref::show(o[j],R[0])); }
  auto cmpG=[&](Cols const& G,int what,const char* key){ for(size_t j=0;j<G.size();++j){ auto R=refPull(n,D,I.x[j],I.c,what); int bad=0; for(size_t i=0;i<R.size();++i){ c.eval(); if(!close(G[j][i],R[i],cm,256)&&++bad<=2) c.fail(std::string(key)+":"+n.kind(),S()<<"entry ("<<i<<","<<j<<") "<<ref::show(G[j][i],R[i])); } } };
  if(n.hasLogdetInputGrad()) cmpG(callGrad(d,I.x,n.inDim,n.inDim,false,genMode(r),c,"pullback-inputgrad",dist),1,"pullback-inputgrad");
  if(hasLDC(n)&&n.nc) cmpG(callGrad(*p,I.x,n.inDim,n.nc,true,genMode(r),c,"pullback-coeffgrad"),2,"pullback-coeffgrad");
  c.count("pullback_compared",cm.done); c.count("ill_conditioned_skipped",cm.skipped); }
static bool square(Node const& n){ return n.inDim==n.outDim; }
// evaluating forward at these points neither overflows a rectifier nor subdivides endlessly
static bool fwdSafe(Node const& n,std::vector<double> const& cf,Cols const& X){ bool ok=true; for(auto&z:X){ for(double v:z) if(!(std::fabs(v)<1e8)) return false; cost()=Cost(); int sv=JN(); JN()=0; std::vector<J> y; auto xj=toJ(z),cj=toJ(cf); n.eval(xj,cj.data(),y); JN()=sv; ok=ok&&cost().maxexp<60&&cost().maxdf<1e4&&cost().evals<20000; for(auto&v:y) if(!(std::fabs(v.v.v)<1e8)) ok=false; } return ok; }
static void pushCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.forInverse=true; g.maxTerms=6; g.maxCoef=20; g.maxDim=3; Instance I; int N=r.i(1,3); if(!make(c,g,I,N,square)) return; Node& n=*I.n; for(auto&x:I.x) if(!invSafe(n,x,I.c)){ c.count("inverse_unsafe_skipped"); return; }
  RefD D=genD(r,n.outDim); MapP m=buildWith(n,I.c); Cols Y=run(m,n,EVAL,I.x,{},Mode()), X=run(m,n,INV,Cols(N,std::vector<double>()),Y,Mode(),nullptr,0); for(auto&x:X) for(double v:x) if(!std::isfinite(v)){ c.count("no_inverse"); return; }
  if(!fwdSafe(n,I.c,X)){ c.count("unsafe_skipped"); return; }
  std::shared_ptr<mpart::PushforwardDensity<HS>> p=std::make_shared<mpart::PushforwardDensity<HS>>(m,D.den); std::shared_ptr<mpart::Distribution<HS>> dist; if(D.dist&&r.b()) dist=mpart::CreatePushforward<HS>(m,D.dist);
  Mode md=genMode(r); c.describe("pushforward of "+D.str()+" by "+descr(n)+" c="+vstr(I.c)+" y0="+vstr(Y[0])+" "+maps::show(md)); c.cover("push"+shape(n)+std::to_string(D.quartic*8+D.G.hasMean*2+D.G.hasCov));
  auto o=callLog(dist?*dist->GetDensity():*p,Y,n.outDim,md,c,"pushforward-logdensity",dist); Cmp cm; int sv=JN(); JN()=0;
  for(size_t j=0;j<o.size();++j){ auto xj=toJ(X[j]),cj=toJ(I.c); J l=D.logpdf(xj)-n.logdet(xj,cj.data()); c.eval(); if(!close(o[j],l.v,cm,128)) c.fail("pushforward-logdensity:"+n.kind(),ref::show(o[j],l.v)); } JN()=sv; c.count("pushforward_compared",cm.done); c.count("ill_conditioned_skipped",cm.skipped); }
static void pushSample(Ctx& c){ Rng& r=c.rng; GenOpt g; g.forInverse=true; g.maxTerms=6; g.maxCoef=20; g.maxDim=3; Instance I; int N=r.pick({0,1,2,4}); if(!make(c,g,I,1,square)) return; Node& n=*I.n; bool pull=r.b(); RefD D=genD(r,n.outDim,true); MapP m=buildWith(n,I.c); unsigned seed=r.next(); bool viaDist=r.b();
  c.describe(std::string(pull?"pullback":"pushforward")+" sampler of "+D.str()+" by "+descr(n)+" c="+vstr(I.c)+" N="+std::to_string(N)+" seed "+std::to_string(seed)); c.cover(std::string(pull?"spull":"spush")+shape(n)+std::to_string(D.G.hasMean*2+D.G.hasCov));
  D.sam->SetSeed(seed); Cols Z=draw(D.sam,N,-1,c), Z2=draw(D.sam,N,-1,c); if(Kokkos::DefaultHostExecutionSpace().concurrency()!=1) return;
  for(auto*ZZ:{&Z,&Z2}) for(auto&z:*ZZ){ if(pull){ std::vector<double> xr; if(!safeInv(n,I.c,{},z,xr)){ c.count("inverse_unsafe_skipped"); return; } } else if(!fwdSafe(n,I.c,{z})){ c.count("unsafe_skipped"); return; } }
  std::shared_ptr<mpart::Distribution<HS>> dist; SamP s; if(viaDist){ dist= pull? mpart::CreatePullback<HS>(m,D.dist) : mpart::CreatePushforward<HS>(m,D.dist); s=dist->GetSampler(); } else if(pull) s=std::make_shared<mpart::PullbackSampler<HS>>(m,D.sam); else s=std::make_shared<mpart::PushforwardSampler<HS>>(m,D.sam);
  if(viaDist) dist->SetSeed(seed); else s->SetSeed(seed); int k=r.i(-1,5); Cols A=draw(s,N,k,c,dist), A2=draw(s,N,-1,c); Cols B,B2; auto img=[&](Cols const& z){ return pull? run(m,n,INV,Cols(N,std::vector<double>()),z,Mode(),nullptr,0) : run(m,n,EVAL,z,{},Mode()); }; B=img(Z); B2=img(Z2);
  c.check(sameBits(A,B),pull?"pullback-sampler":"pushforward-sampler",[&]{return "samples differ from the image of the reference samples: "+showDiff(A,B);}); c.check(sameBits(A2,B2),pull?"pullback-sampler":"pushforward-sampler",[&]{return "second batch differs from the image of the reference samples: "+showDiff(A2,B2);}); c.count("sampler_batches",2); }
static void c18(Ctx& c){ int k=c.rng.i(0,99); if(k<35) gaussCase(c); else if(k<42) sampleCase(c); else if(k<72) pullCase(c); else if(k<86) pushCase(c); else pushSample(c); }

// ---------------------------------------------------------------- C19
static std::shared_ptr<mpart::MapObjective<HS>> mkObj(Rng& r,RefD const& D,Arr const& tr,Arr const* te){
  bool std_= !D.quartic&&!D.G.hasMean&&!D.G.hasCov;
  if(std_&&r.b()){ unsigned d= D.G.d==tr.R&&r.b()?0:D.G.d; if(te) return mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(tr.c(),te->c(),d); return mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(tr.c(),d); }
  if(te) return std::make_shared<mpart::KLObjective<HS>>(tr.c(),te->c(),D.den); return std::make_shared<mpart::KLObjective<HS>>(tr.c(),D.den); }
static bool hasBadExp(Node const& n){ bool b=false; walk(n,0,[&](CompX const& c,int){ if(c.r==EXPR) b=true; }); return b; }
// optimizers wander into steep regions, where deep subdivision would take forever
static void tame(Node const& n){ walk(n,0,[](CompX const& c0,int){ auto& c=const_cast<CompX&>(c0); if(c.q.type==0) return; c.q.maxSub=std::min<decltype(c.q.maxSub)>(c.q.maxSub,8); c.q.minSub=std::min<decltype(c.q.minSub)>(c.q.minSub,2); c.q.abs=c.q.rel=std::max(c.q.abs,1e-7); c.opts=toOptions(c); }); }
static E refKL(Node const& n,RefD const& D,Cols const& X,std::vector<double> const& cf){ E s(0); for(auto&x:X) s=s-refPull(n,D,x,cf,0)[0]; return s*E(1.0/X.size()); }
static void objCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=8; g.maxCoef=20; Instance I; int N=r.i(2,9); if(!make(c,g,I,N,[](Node const& n){return n.nc>0;})) return; Node& n=*I.n; RefD D=genD(r,n.outDim); int Nt=r.i(1,N-1); Cols T(I.x.begin(),I.x.begin()+Nt),V(I.x.begin()+Nt,I.x.end()); bool test=r.b(0.7);
  Arr tr(T,n.inDim,r.i(0,5)),te(V,n.inDim,r.i(0,5)); auto raw=tr.raw(),rawe=te.raw(); auto o=mkObj(r,D,tr,test?&te:nullptr); MapP m=build(n); std::vector<double> c0=genCoeffs(r,n.nc,0.3); bool pre=r.b(); setCoeffs(m,pre?c0:I.c);
  c.describe("objective "+D.str()+" "+descr(n)+" Ntrain="+std::to_string(Nt)+" c="+vstr(I.c)+" x0="+vstr(T[0])); c.cover("obj"+shape(n)+std::to_string(D.quartic*8+D.G.hasMean*2+D.G.hasCov)+std::to_string(Nt));
  c.check(int(o->InputDim())==n.inDim&&int(o->MapOutputDim())==n.outDim&&int(o->NumSamples())==Nt,"objective-dims",[&]{return S()<<"dimensions "<<o->InputDim()<<"->"<<o->MapOutputDim()<<" with "<<o->NumSamples()<<" samples";});
  Cmp cm; E R=refKL(n,D,T,I.c); std::vector<E> G(n.nc,E(0)); bool ldc=hasLDC(n); if(ldc){ for(auto&x:T){ auto q=refPull(n,D,x,I.c,2); for(int i=0;i<n.nc;++i) G[i]=G[i]-q[i]; } for(auto&v:G) v=v*E(1.0/Nt); }
  auto val=[&](double v,E ref,const char* key){ c.eval(); if(!close(v,ref,cm,256)) c.fail(std::string(key)+":"+n.kind(),ref::show(v,ref)); };
  auto grd=[&](std::function<double(int)> f,const char* key){ int bad=0; for(int i=0;i<n.nc;++i){ c.eval(); if(!close(f(i),G[i],cm,256)&&++bad<=2) c.fail(std::string(key)+":"+n.kind(),S()<<"entry "<<i<<": "<<ref::show(f(i),G[i])); } };
  bool withGrad=ldc&&r.b(0.8); if(pre||r.b()){ Arr gb(1,n.nc,1); gb.fill(r.pick({0.0,1e300,std::nan("")})); std::vector<double> cc=I.c; double v=(*o)(n.nc,cc.data(),withGrad? &gb.at(0,0):nullptr,m); val(v,R,"objective-operator"); if(withGrad) grd([&](int i){return gb.at(0,i);},"objective-gradient"); c.check(cc==I.c&&gb.padsIntact(),"objective-inputs","the coefficients handed in were changed");
    auto k=m->Coeffs(); bool same=int(k.extent(0))==n.nc; for(int i=0;same&&i<n.nc;++i) if(!sameBits(k(i),I.c[i])) same=false; c.check(same,"objective-sets-coeffs","evaluating the objective did not set the map's coefficients"); }
  val(o->TrainError(m),R,"train-error"); val(o->ObjectiveImpl(tr.c(),m),R,"objective-impl");
  if(test){ val(o->TestError(m),refKL(n,D,V,I.c),"test-error"); } else { bool th=false; try{ o->TestError(m); }catch(std::exception const&){ th=true; } c.check(th,"test-error-without-data","TestError without test data did not throw"); }
  if(ldc){ auto v=o->TrainCoeffGrad(m); if(c.check(int(v.extent(0))==n.nc,"gradient-shape","TrainCoeffGrad has the wrong length")) grd([&](int i){return v(i);},"train-gradient"); Arr a(1,n.nc,r.i(0,5)); a.fill(r.pick({0.0,7.0,std::nan("")})); o->TrainCoeffGradImpl(m,a.rowv()); grd([&](int i){return a.at(0,i);},"train-gradient-impl"); c.check(a.padsIntact(),"gradient-pads","wrote outside the gradient"); 
    Arr b(1,n.nc,r.i(0,5)); b.fill(3); double w=o->ObjectivePlusCoeffGradImpl(tr.c(),b.rowv(),m); val(w,R,"objective-plus-grad"); grd([&](int i){return b.at(0,i);},"objective-plus-grad"); c.check(b.padsIntact(),"gradient-pads","wrote outside the gradient"); }
  // the objective keeps nothing about the maps it is asked about: another map, then the same data array with other samples
  if(r.b(0.3)){ double v0=o->TrainError(m); std::vector<double> g0; if(ldc){ auto v=o->TrainCoeffGrad(m); for(int i=0;i<n.nc;++i) g0.push_back(v(i)); }
    MapP m2=build(n); std::vector<double> c2=genCoeffs(r,n.nc,0.2); for(int t=0;t<14&&!calm(I.n,T,c2);++t) for(auto&v:c2) v*=0.4; if(!calm(I.n,T,c2)) c2=I.c; setCoeffs(m2,c2); o->TrainError(m2); if(ldc) o->TrainCoeffGrad(m2); if(r.b()){ auto id=std::make_shared<mpart::IdentityMap<HS>>(n.inDim,n.outDim); o->TrainError(id); }
    double v1=o->TrainError(m); c.check(sameBits(v0,v1),"objective-history",[&]{return S()<<"TrainError was "<<v0<<" and is "<<v1<<" after asking about another map";}); if(ldc){ auto v=o->TrainCoeffGrad(m); bool same=int(v.extent(0))==n.nc; for(int i=0;same&&i<n.nc;++i) same=sameBits(v(i),g0[i]); c.check(same,"objective-history","TrainCoeffGrad changed after asking about another map"); }
    std::vector<double> before=I.c; setCoeffs(m,c2); double v2=o->TrainError(m), v3=o->TrainError(m2); c.check(sameBits(v2,v3),"objective-history",[&]{return S()<<"TrainError "<<v2<<" after changing the coefficients of a map, "<<v3<<" for another map with these coefficients";}); setCoeffs(m,before); c.count("objective_histories"); }
  c.check(!std::memcmp(raw.data(),tr.raw().data(),raw.size()*8)&&(rawe.empty()||!std::memcmp(rawe.data(),te.raw().data(),rawe.size()*8)),"data-modified","training or test data were modified");
  c.count("objective_values",cm.done); c.count("ill_conditioned_skipped",cm.skipped); }
static const std::vector<std::string> ALGS={"LD_SLSQP","LD_SLSQP","LD_LBFGS","LD_MMA","LD_CCSAQ","LD_TNEWTON","LD_TNEWTON_PRECOND_RESTART","LD_VAR1","LD_VAR2","LN_COBYLA","LN_NELDERMEAD","LN_SBPLX","LN_BOBYQA","LN_NEWUOA","LN_PRAXIS"};
// swallow the library's progress output and warnings
struct Quiet { std::ostringstream a,b; std::streambuf *x,*y; Quiet(){ x=std::cout.rdbuf(a.rdbuf()); y=std::cerr.rdbuf(b.rdbuf()); } ~Quiet(){ std::cout.rdbuf(x); std::cerr.rdbuf(y); } };
static mpart::TrainOptions genTO(Rng& r,int nc){ mpart::TrainOptions t; t.opt_alg=r.pick(ALGS); if(nc<2&&(t.opt_alg=="LN_BOBYQA"||t.opt_alg=="LN_NEWUOA")) t.opt_alg="LN_COBYLA"; double q=std::pow(10.0,-r.u(1,9)); if(r.b(0.7)){ t.opt_ftol_rel=q; t.opt_ftol_abs=r.b()?q:0; t.opt_xtol_rel=r.b()?q:0; t.opt_xtol_abs=r.b()?q:0; } t.opt_maxeval=r.pick({1,2,5,20,60}); t.verbose=r.b(0.2)?r.i(1,2):0; if(r.b(0.1)) t.opt_stopval=r.n(); return t; }
static void trainCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=6; g.maxCoef=14; g.maxDim=3; Instance I; int N=r.i(1,14); if(!make(c,g,I,N,[](Node const& n){return n.nc>0&&n.nc<=14&&!hasBadExp(n)&&hasLDC(n);})) return; Node& n=*I.n; tame(n);
  RefD D=genD(r,n.outDim); Arr tr(I.x,n.inDim,r.i(0,5)); auto raw=tr.raw(); auto o=mkObj(r,D,tr,nullptr); mpart::TrainOptions t=genTO(r,n.nc); MapP m=build(n);
  // NLopt's derivative-free algorithms may loop forever once the objective is infinite: give them bounded log-determinants
  if(t.opt_alg[1]=='N'){ bool bounded=true; walk(n,0,[&](CompX const& q,int){ if(!q.contDeriv||q.nugget<=0) bounded=false; }); if(!bounded) t.opt_alg="LD_SLSQP"; } bool fresh=r.b(0.25); std::vector<double> st=I.c;
  if(fresh){ if(m->Coeffs().extent(0)==0) st.assign(n.nc,1.0); else { auto k=m->Coeffs(); for(int i=0;i<n.nc;++i) st[i]=k(i); } } else setCoeffs(m,st);
  c.describe("train "+t.opt_alg+" maxeval "+std::to_string(t.opt_maxeval)+" ftol "+num(t.opt_ftol_rel)+","+num(t.opt_ftol_abs)+" xtol "+num(t.opt_xtol_rel)+","+num(t.opt_xtol_abs)+(fresh?" fresh":"")+" "+D.str()+" "+descr(n)+" N="+std::to_string(N)+" c="+vstr(st)+" x0="+vstr(I.x[0])); c.cover("train"+t.opt_alg+shape(n)+std::to_string(fresh));
  { int sv=JN(); JN()=0; bool ok=true; for(auto&x:I.x){ cost()=Cost(); std::vector<J> y; auto xj=toJ(x),cj=toJ(st); n.eval(xj,cj.data(),y); if(!(cost().maxdf<1e5)) ok=false; } JN()=sv; if(!ok){ c.count("unsafe_skipped"); return; } }
  MapP ms=buildWith(n,st); double e0=o->TrainError(ms); if(!std::isfinite(e0)){ c.count("start_not_finite"); return; }
  double e; { Quiet q; e=mpart::TrainMap<HS>(m,o,t); } auto k=m->Coeffs(); if(!c.check(int(k.extent(0))==n.nc,"train-coeffs","training changed the number of coefficients")) return; std::vector<double> cf(n.nc); bool fin=true; for(int i=0;i<n.nc;++i){ cf[i]=k(i); if(!std::isfinite(cf[i])) fin=false; }
  c.check(fin,"train-coeffs-not-finite:"+t.opt_alg,[&]{return "coefficients after training: "+vstr(cf);}); if(!fin) return;
  double e1=o->TrainError(m); c.check(std::fabs(e-e1)<=1e-12*(1+std::fabs(e1))||sameBits(e,e1),"train-returned-value:"+t.opt_alg,[&]{return S()<<"TrainMap returned "<<e<<" but the objective at the coefficients it left is "<<e1;});
  c.check(e1<=e0+1e-12*(1+std::fabs(e0)),"train-worse:"+t.opt_alg,[&]{return S()<<"training changed the objective from "<<e0<<" to "<<e1;}); if(e1<e0-1e-6) c.count("trainings_improving");
  c.check(!std::memcmp(raw.data(),tr.raw().data(),raw.size()*8),"data-modified","training data were modified");
  MapP fr=buildWith(n,cf); Cols A=run(m,n,EVAL,I.x,{},Mode()),B=run(fr,n,EVAL,I.x,{},Mode()); c.check(sameBits(A,B),"train-map-state",[&]{return "the trained map differs from a fresh map with its coefficients: "+showDiff(A,B);});
  if(t.opt_alg!="LN_PRAXIS"&&Kokkos::DefaultHostExecutionSpace().concurrency()==1){ MapP m2=build(n); if(!fresh) setCoeffs(m2,st); double e2; { Quiet q; e2=mpart::TrainMap<HS>(m2,o,t); } auto k2=m2->Coeffs(); bool same=sameBits(e,e2); for(int i=0;i<n.nc;++i) if(!sameBits(k2(i),cf[i])) same=false; c.check(same,"train-not-repeatable:"+t.opt_alg,[&]{return S()<<"a second run returned "<<e2<<" instead of "<<e;}); }
  c.count("trainings"); c.count("alg_"+t.opt_alg); }
static void c19(Ctx& c){ if(c.rng.b(0.6)) objCase(c); else trainCase(c); }

// ---------------------------------------------------------------- C20
// Records everything the adaptive algorithm asks of its objective.
struct Spy: mpart::KLObjective<HS> { const double* test; struct Grad { std::vector<double> g; int nc; }; mutable std::vector<Grad> grads; mutable std::vector<double> testErr; mutable std::vector<int> testNc;
  Spy(arr::CMat tr,arr::CMat te,DenP d): mpart::KLObjective<HS>(tr,te,d),test(te.data()){}
  double ObjectiveImpl(mpart::StridedMatrix<const double,HS> data,MapP m) const override { double v=mpart::KLObjective<HS>::ObjectiveImpl(data,m); if(data.data()==test){ testErr.push_back(v); testNc.push_back(m->numCoeffs); } return v; }
  void CoeffGradImpl(mpart::StridedMatrix<const double,HS> data,mpart::StridedVector<double,HS> grad,MapP m) const override { mpart::KLObjective<HS>::CoeffGradImpl(data,grad,m); Grad g; g.nc=m->numCoeffs; for(size_t i=0;i<grad.extent(0);++i) g.g.push_back(grad(i)); grads.push_back(g); } };
typedef std::vector<unsigned> MI;
static std::vector<MI> terms(mpart::MultiIndexSet const& s){ std::vector<MI> o; for(unsigned i=0;i<s.Size();++i) o.push_back(s[i].Vector()); return o; }
static void c20(Ctx& c){ Rng& r=c.rng; int out=r.i(1,3), in=out+r.pick({0,0,0,1}); if(in>3) in=out; int Nt=r.i(4,30), Ne=r.i(3,20);
  // data: a nonlinear transformation of normal samples
  double a1=r.u(0.3,2),a2=r.u(-0.6,0.6),a3=r.u(-0.5,0.5); bool degenerate=r.b(0.04); auto pt=[&]{ std::vector<double> x(in); for(int i=0;i<in;++i){ double z=r.n(); x[i]=a1*z+(i? a2*x[i-1]*x[i-1]+a3*x[i-1] : a3*z*z*0.5)+(i==0?a2:0); if(degenerate) x[i]=0; } return x; };
  Cols T,V; for(int i=0;i<Nt;++i) T.push_back(pt()); for(int i=0;i<Ne;++i) V.push_back(pt()); Arr tr(T,in,r.i(0,5)),te(V,in,r.i(0,5)); auto rt=tr.raw(),re=te.raw();
  mpart::ATMOptions op; GenOpt g; auto cx=genComp(r,1,g,1); cx->r=SOFTPLUS; if(cx->q.type==0) cx->q.pts=std::max<unsigned>(cx->q.pts,5); else { cx->q.abs=cx->q.rel=1e-6; cx->q.maxSub=8; cx->q.minSub=std::min<int>(cx->q.minSub,2); if(cx->q.type==2) cx->q.pts=std::min<unsigned>(cx->q.pts,4); } static_cast<mpart::MapOptions&>(op)=toOptions(*cx);
  op.opt_alg=r.pick({"LD_SLSQP","LD_SLSQP","LD_LBFGS","LD_MMA"}); if(r.b()){ double q=std::pow(10.0,-r.u(3,7)); op.opt_ftol_rel=op.opt_ftol_abs=op.opt_xtol_rel=op.opt_xtol_abs=q; } op.opt_maxeval=r.pick({3,30,150}); op.verbose=r.b(0.15)?r.i(1,2):0; op.maxPatience=r.i(0,4);
  std::vector<mpart::MultiIndexSet> ms; std::vector<std::vector<MI>> init; int tot=0; std::vector<bool> closed; int maxdeg0=0;
  for(int j=0;j<out;++j){ int d=in-out+j+1; int k=r.i(0,3); mpart::MultiIndexSet s= mpart::MultiIndexSet::CreateTotalOrder(d, k==0?0: k==1?1: r.i(0,1));
    if(k==2){ // random downward closed set, reached by adding margin terms
      int add=r.i(0,3); for(int q=0;q<add;++q){ auto mg=s.ReducedMargin(); if(mg.empty()) break; s+=mg[r.next()%mg.size()]; } }
    if(k==3&&r.b(0.3)) s=mpart::MultiIndexSet::CreateTensorProduct(d,1); if(r.b(0.1)) { unsigned L=r.i(1,2); s=mpart::MultiIndexSet::CreateTotalOrder(d,1,mpart::MultiIndexLimiter::TotalOrder(L)); }
    ms.push_back(s); init.push_back(terms(s)); tot+=s.Size(); for(auto&t:init.back()) for(auto v:t) maxdeg0=std::max<int>(maxdeg0,v); }
  op.maxSize=std::max(0,tot+r.i(-2,8)); bool lim=r.b(0.4); std::vector<unsigned> md; if(lim){ md.resize(in); for(auto&v:md) v=r.i(1,4); if(r.b(0.2)) md.assign(in,1); op.maxDegrees=mpart::MultiIndex(md); }
  RefD D; D.G.d=out; if(r.b(0.3)) D=genD(r,out); else { D.G.init(); D.den=std::make_shared<GaussianSamplerDensity<HS>>((unsigned)out); }
  std::string sets; for(auto&s:init) { for(auto&t:s) sets+=vstr(t); sets+=";"; }
  c.describe(S()<<"adapt "<<in<<"->"<<out<<" "<<op.opt_alg<<" ftol "<<op.opt_ftol_rel<<" maxeval "<<op.opt_maxeval<<" patience "<<op.maxPatience<<" maxSize "<<op.maxSize<<(lim?" maxDegrees "+vstr(md):"")<<" sets "<<sets<<" "<<gen::shape(*cx)<<" Ntrain "<<Nt<<" Ntest "<<Ne<<" "<<D.str()); c.cover(S()<<"adapt"<<in<<out<<op.opt_alg<<op.maxPatience<<(int(op.maxSize)-tot)<<lim<<sets<<gen::shape(*cx));
  auto msA=ms,msB=ms; auto spy=std::make_shared<Spy>(tr.c(),te.c(),D.den); MapP m; { Quiet q; m=mpart::TrainMapAdaptive<HS>(msA,spy,op); }
  // the optimized initial map, built by hand
  std::vector<MapP> b0; for(int j=0;j<out;++j) b0.push_back(mpart::MapFactory::CreateComponent<HS>(ms[j].Fix(true),op)); MapP m0=std::make_shared<mpart::TriangularMap<HS>>(b0,true); auto plain=std::make_shared<mpart::KLObjective<HS>>(tr.c(),te.c(),D.den); { Quiet q; mpart::TrainMap<HS>(m0,plain,op); } double e0=plain->TestError(m0), eF=plain->TestError(m);
  if(!std::isfinite(e0)){ c.count("start_not_finite"); return; }
  c.check(eF<=e0+1e-9*(1+std::fabs(e0)),"adapt-worse",[&]{return S()<<"test error of the returned map "<<eF<<", of the optimized initial map "<<e0;});
  // structure
  if(!c.check(int(msA.size())==out&&int(m->inputDim)==in&&int(m->outputDim)==out,"adapt-dims","dimensions of the returned map or sets changed")) return;
  auto tm=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m); int n2=0; std::vector<std::vector<MI>> fin;
  for(int j=0;j<out;++j){ fin.push_back(terms(msA[j])); n2+=fin[j].size(); std::set<MI> S2(fin[j].begin(),fin[j].end());
    for(auto&t:init[j]) c.check(S2.count(t)>0,"adapt-lost-term",[&]{return S()<<"set "<<j<<" lost its initial term "<<vstr(t);});
    std::set<MI> S0(init[j].begin(),init[j].end()); for(auto&t:fin[j]){ if(lim&&!S0.count(t)) for(size_t i=0;i<t.size();++i) c.check(t[i]<md[i],"adapt-degree-limit",[&]{return S()<<"set "<<j<<" has the added term "<<vstr(t)<<" but degrees must stay below "<<vstr(md);});
      for(size_t i=0;i<t.size();++i) if(t[i]){ MI u=t; --u[i]; c.check(S2.count(u)>0,"adapt-not-closed",[&]{return S()<<"set "<<j<<" contains "<<vstr(t)<<" but not "<<vstr(u);}); } }
    if(tm) c.check(int(tm->GetComponent(j)->numCoeffs)==int(fin[j].size()),"adapt-component-size",[&]{return S()<<"component "<<j<<" has "<<tm->GetComponent(j)->numCoeffs<<" coefficients but its set has "<<fin[j].size()<<" terms";}); }
  c.check(int(m->numCoeffs)==n2,"adapt-size",[&]{return S()<<"the map has "<<m->numCoeffs<<" coefficients but the sets have "<<n2<<" terms";}); c.check(n2<=std::max<int>(tot,op.maxSize),"adapt-max-size",[&]{return S()<<n2<<" terms exceed the limit "<<op.maxSize<<" (initially "<<tot<<")";});
  auto k=m->Coeffs(); std::vector<double> cf(k.extent(0)); bool fine=int(k.extent(0))==n2; for(size_t i=0;i<cf.size();++i){ cf[i]=k(i); if(!std::isfinite(cf[i])) fine=false; } if(!c.check(fine,"adapt-coeffs",[&]{return "coefficients of the returned map: "+vstr(cf);})) return;
  { std::vector<MapP> bs; for(int j=0;j<out;++j) bs.push_back(mpart::MapFactory::CreateComponent<HS>(msA[j].Fix(true),op)); MapP f=std::make_shared<mpart::TriangularMap<HS>>(bs,true); setCoeffs(f,cf); Arr x(V,in,1); auto A=colsOf(m->Evaluate(x.c())),B=colsOf(f->Evaluate(x.c())); c.check(sameBits(A,B),"adapt-inconsistent-map",[&]{return "the returned map differs from a map built on the reported sets with its coefficients: "+showDiff(A,B);}); }
  c.check(!std::memcmp(rt.data(),tr.raw().data(),rt.size()*8)&&!std::memcmp(re.data(),te.raw().data(),re.size()*8),"data-modified","training or test data were modified");
  // trace: one gradient and one test error per step, the steepest admissible candidate is added, stop as soon as the budgets say so
  // asking for the same quantity twice in a row changes nothing
  for(size_t i=1;i<spy->testNc.size();) if(spy->testNc[i]==spy->testNc[i-1]&&sameBits(spy->testErr[i],spy->testErr[i-1])){ spy->testNc.erase(spy->testNc.begin()+i); spy->testErr.erase(spy->testErr.begin()+i); } else ++i;
  for(size_t i=1;i<spy->grads.size();) if(spy->grads[i].nc==spy->grads[i-1].nc&&spy->grads[i].g==spy->grads[i-1].g) spy->grads.erase(spy->grads.begin()+i); else ++i;
  auto& te_=spy->testErr; auto& tn=spy->testNc; int steps=0; while(steps+1<int(tn.size())&&tn[steps+1]==tot+steps+1) ++steps;
  c.count("adaptive_steps",steps); c.check(steps<=std::max(0,int(op.maxSize)-tot),"adapt-max-size",[&]{return S()<<steps<<" terms were tried, "<<op.maxSize<<" is the limit and the initial size is "<<tot;});
  if(!tn.empty()&&tn[0]==tot){ double best=te_[0]; int bi=0,pat=0; bool over=false; for(int s=1;s<=steps;++s){ if(pat>=int(op.maxPatience)) over=true; if(te_[s]<best){ best=te_[s]; bi=s; pat=0; } else ++pat; }
    c.check(!over,"adapt-patience",[&]{return S()<<"kept adding terms after "<<op.maxPatience<<" steps without improvement";}); c.check(n2==tot+bi,"adapt-not-best",[&]{return S()<<"the returned map has "<<n2<<" terms but the best test error was seen with "<<tot+bi;});
    bool exhausted=pat>=int(op.maxPatience)||tot+steps>=int(op.maxSize);
    // replay the choice of terms
    if(int(spy->grads.size())>=steps){ auto cur=ms; bool tie=false,bad=false; std::vector<std::vector<MI>> atBest; for(auto&s:cur) atBest.push_back(terms(s)); bool candLeft=false;
      for(int s=0;s<=steps&&!tie&&!bad;++s){ if(s==steps&&int(spy->grads.size())<=s) break; auto& G=spy->grads[s]; int off=0; double mx=0,second=0; int wb=-1; MI wt; 
        for(int j=0;j<out;++j){ auto ex=cur[j]; auto rm=ex.Expand(); for(auto q:rm){ MI t=ex[q].Vector(); bool adm=true; if(lim) for(size_t i=0;i<t.size();++i) if(t[i]>=md[i]) adm=false; if(!adm) continue; if(off+int(q)>=int(G.g.size())){ bad=true; break; } double v=std::fabs(G.g[off+q]); if(v>mx){ second=mx; mx=v; wb=j; wt=t; } else if(v>second) second=v; } off+=ex.Size(); }
        if(off!=G.nc) bad=true; if(s==steps){ candLeft=wb>=0&&mx>0; break; } if(wb<0) bad=true; if(bad||mx==second){ tie=true; break; } cur[wb]+=mpart::MultiIndex(wt); if(s+1==bi){ atBest.clear(); for(auto&q:cur) atBest.push_back(terms(q)); } }
      c.check(!bad,"adapt-trace","the gradients asked for do not belong to the expanded sets"); if(!tie&&!bad){ bool same=true; for(int j=0;j<out;++j) if(std::set<MI>(fin[j].begin(),fin[j].end())!=std::set<MI>(atBest[j].begin(),atBest[j].end())) same=false; c.check(same,"adapt-choice","the terms added are not the ones with the steepest training gradients"); c.count("traces_replayed"); }
      if(!exhausted&&!bad&&!tie) c.check(!candLeft,"adapt-stopped-early",[&]{return S()<<"stopped after "<<steps<<" steps although budgets and candidates were left";}); } }
  else c.check(false,"adapt-trace",[&]{return S()<<"the first test error was not that of the initial map";});
  if(Kokkos::DefaultHostExecutionSpace().concurrency()==1){ MapP mb; { Quiet q; mb=mpart::TrainMapAdaptive<HS>(msB,plain,op); } bool same=mb->numCoeffs==m->numCoeffs; auto kb=mb->Coeffs(); for(size_t i=0;same&&i<cf.size();++i) if(!sameBits(kb(i),cf[i])) same=false; for(int j=0;j<out;++j) if(terms(msB[j])!=fin[j]) same=false; c.check(same,"adapt-not-repeatable","a second identical run returned something else"); }
  c.count("adaptive_runs"); }
static Reg r18("C18",c18), r19("C19",c19), r20("C20",c20);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
