// Building blocks on their own: univariate bases and rectifiers (C14), quadrature (C15), root finding (C16),
// multivariate expansions and the cache-based worker (C17).
#include "maps.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
#include "MParT/Quadrature.h"
#include "MParT/Utilities/RootFinding.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/MultivariateExpansionWorker.h"
using namespace maps;

// exact-size heap array filled with NaN, with the sanitizer's red zones around it
struct Buf { std::unique_ptr<double[]> p; int n; Buf(int n_): p(new double[n_]), n(n_) { for(int i=0;i<n;++i) p[i]=std::nan(""); } double* d(){ return p.get(); } double& operator[](int i){ return p[i]; } };

// ---------------------------------------------------------------- C14
static bool okv(double got,E e,double abs0){ if(!(e.e<INF)||std::fabs(e.v)>1e290) return true; return std::fabs(got-e.v)<=64*e.e+32*EPS*std::fabs(e.v)+abs0; }
template<class B> struct TwoArg { static bool run(B const&,double*,int,double){ return false; } };
template<class M> struct TwoArg<mpart::OrthogonalPolynomial<M>> { static bool run(mpart::OrthogonalPolynomial<M> const& b,double* d,int n,double x){ b.EvaluateDerivatives(d,n,x); return true; } };

template<class B> void basisCase(Ctx& c,B const& lib,Basis const& spec,std::string const& name){
  auto& r=c.rng; int n= r.b(0.15)? r.i(0,2) : r.i(0,30); double x; int k=r.i(0,9);
  if(spec.lin&&k<4){ double b= r.b()? spec.lb:spec.ub; if(!std::isfinite(b)) b= std::isfinite(spec.lb)? spec.lb : std::isfinite(spec.ub)? spec.ub : 0; int q=r.i(0,4); x= q==0? b : q==1? std::nextafter(b,INF) : q==2? std::nextafter(b,-INF) : b+r.pick({1.0,-1.0})*std::pow(10.0,r.u(-12,3)); }
  else if(k==4) x=0.0; else if(k==5) x=r.n()*r.pick({10.0,100.0}); else if(k==6) x=r.n()*std::pow(10.0,r.u(-8,5)); else x=r.n()*r.pick({1.0,3.0});
  c.describe(S()<<"basis "<<name<<" lb="<<spec.lb<<" ub="<<spec.ub<<" degree "<<n<<" x="<<x); c.cover(S()<<name<<" "<<n<<" "<<(x<spec.lb?0:x>spec.ub?2:1)<<" "<<int(std::floor(std::log10(1e-3+std::fabs(x)))));
  Uni<E> u; evalBasis(spec,n,E(x),u); double a0= spec.fam==HFUN? 1e-270*(1+std::fabs(x)) : 1e-290;
  auto cmp=[&](double* got,std::vector<E> const& want,const char* what){ for(int i=0;i<=n;++i){ c.eval(); if(!okv(got[i],want[i],a0)){ c.fail(std::string(what)+":"+name,S()<<what<<" of order "<<i<<" at "<<x<<" "<<ref::show(got[i],want[i])); break; } } };
  { Buf v(n+1); lib.EvaluateAll(v.d(),n,x); cmp(v.d(),u.p,"EvaluateAll"); }
  { Buf v(n+1),d(n+1); lib.EvaluateDerivatives(v.d(),d.d(),n,x); cmp(v.d(),u.p,"EvaluateDerivatives-values"); cmp(d.d(),u.d,"EvaluateDerivatives"); }
  { Buf v(n+1),d(n+1),e(n+1); lib.EvaluateSecondDerivatives(v.d(),d.d(),e.d(),n,x); cmp(v.d(),u.p,"EvaluateSecondDerivatives-values"); cmp(d.d(),u.d,"EvaluateSecondDerivatives-first"); cmp(e.d(),u.dd,"EvaluateSecondDerivatives"); }
  { Buf d(n+1); if(TwoArg<B>::run(lib,d.d(),n,x)) cmp(d.d(),u.d,"EvaluateDerivatives-only"); }
  Buf s(n+1),sd(n+1),sdd(n+1); for(int i=0;i<=n;++i){ s[i]=lib.Evaluate(i,x); sd[i]=lib.Derivative(i,x); sdd[i]=lib.SecondDerivative(i,x); }
  cmp(s.d(),u.p,"Evaluate"); cmp(sd.d(),u.d,"Derivative"); cmp(sdd.d(),u.dd,"SecondDerivative");
  if(spec.lin&&(x<spec.lb||x>spec.ub)){ // constant slope outside the bounds: moving further out changes nothing but the value
    double x2= x<spec.lb? x-1.5 : x+1.5; for(int i=0;i<=n;++i){ c.eval(); if(!sameBits(lib.Derivative(i,x),lib.Derivative(i,x2))||lib.SecondDerivative(i,x2)!=0) { c.fail("linearized-slope:"+name,S()<<"slope of order "<<i<<" is not constant outside the bounds"); break; } } c.count("outside_bounds"); }
  c.count("basis_points");
}
template<class B> void orthonormal(Ctx& c,B const& lib,int first,int n,double wexp,std::string const& name){
  c.describe(S()<<"orthonormality "<<name<<" degree "<<n); c.cover(S()<<"on"<<name<<n); int m=n+1-first; std::vector<long double> G(m*m,0.0L); double h=0.04,Lim=26; Buf v(n+1);
  for(double x=-Lim;x<=Lim;x+=h){ lib.EvaluateAll(v.d(),n,x); long double w=h*expl(-(long double)wexp*x*x); for(int i=0;i<m;++i) for(int j=0;j<=i;++j) G[i*m+j]+=w*v[i+first]*(long double)v[j+first]; }
  for(int i=0;i<m;++i) for(int j=0;j<=i;++j){ c.eval(); if(!(std::fabs(double(G[i*m+j])-(i==j))<=1e-8)){ c.fail("orthonormal:"+name,S()<<"<p"<<i<<",p"<<j<<"> = "<<double(G[i*m+j])); return; } }
  c.count("orthonormality_pairs",m*(m+1)/2);
}
static void rectCase(Ctx& c){
  auto& r=c.rng; double x; int k=r.i(0,6); x= k<3? r.n()*3 : k==3? r.n()*30 : k==4? r.u(-744,709) : k==5? r.n()*1e-6 : r.u(-40,40); bool sp=r.b();
  c.describe(S()<<"rectifier "<<(sp?"softplus":"exp")<<" x="<<x); c.cover(S()<<"r"<<sp<<int(std::floor(x)));
  long double X=x, e=expl(-fabsl(X)); double g,d1,d2,G,D,DD,inv;
  if(sp){ g=double(log1pl(e)+fmaxl(X,0)); d1=double(X>=0? 1/(1+e) : e/(1+e)); d2=double(e/((1+e)*(1+e))); G=mpart::SoftPlus::Evaluate(x); D=mpart::SoftPlus::Derivative(x); DD=mpart::SoftPlus::SecondDerivative(x); inv=mpart::SoftPlus::Inverse(g); }
  else { g=d1=d2=double(expl(X)); G=mpart::Exp::Evaluate(x); D=mpart::Exp::Derivative(x); DD=mpart::Exp::SecondDerivative(x); inv=mpart::Exp::Inverse(g); }
  std::string nm= sp?"softplus":"exp"; double rel=16*EPS, tiny=1e-305;
  c.check(std::fabs(G-g)<=rel*g+tiny,"rectifier-value:"+nm,[&]{return S()<<"g("<<x<<") = "<<G<<", expected "<<g;});
  c.check(G>0,"rectifier-positive:"+nm,[&]{return S()<<"g("<<x<<") = "<<G<<" is not positive";});
  c.check(std::fabs(D-d1)<=rel*d1+tiny,"rectifier-derivative:"+nm,[&]{return S()<<"g'("<<x<<") = "<<D<<", expected "<<d1;});
  c.check(std::fabs(DD-d2)<=2*rel*d2+tiny,"rectifier-second-derivative:"+nm,[&]{return S()<<"g''("<<x<<") = "<<DD<<", expected "<<d2;});
  double x2=x+std::fabs(x)*1e-9+1e-9; double G2= sp? mpart::SoftPlus::Evaluate(x2) : mpart::Exp::Evaluate(x2); c.check(G2>=G,"rectifier-increasing:"+nm,[&]{return S()<<"g decreases from "<<x<<" to "<<x2;});
  if(g>1e-300) c.check(std::fabs(inv-x)<=32*EPS*(1+std::fabs(x)),"rectifier-inverse:"+nm,[&]{return S()<<"Inverse("<<g<<") = "<<inv<<", expected "<<x;});
  double f=mpart::Logistic::Evaluate(x), fd=mpart::Logistic::Derivative(x), lf=double(X>=0?1/(1+e):e/(1+e)), ld=double(e/((1+e)*(1+e)));
  c.check(f>=0&&f<=1&&std::fabs(f-lf)<=4*EPS,"logistic-value",[&]{return S()<<"logistic("<<x<<") = "<<f<<", expected "<<lf;}); c.check(std::fabs(fd-ld)<=4*EPS,"logistic-derivative",[&]{return S()<<"logistic'("<<x<<") = "<<fd<<", expected "<<ld;});
  double y= r.b()? r.u(1e-12,1-1e-12) : std::pow(10.0,-r.u(0.1,300)); double z=mpart::Logistic::Inverse(y), zt=double(logl((long double)y)-log1pl(-(long double)y)); c.check(std::fabs(z-zt)<=16*EPS*(1+std::fabs(zt)),"logistic-inverse",[&]{return S()<<"Inverse("<<y<<") = "<<z<<", expected "<<zt;});
  c.count("rectifier_points");
}
static void sigmoidCase(Ctx& c){
  auto& r=c.rng; int n=r.i(0,5), N=r.i(0,5); if(r.b(0.9)&&n==0) n=1; if(r.b(0.9)&&N==0) N=2; Kokkos::View<double*,HS> ce(std::string("c"),n), wi(std::string("w"),n); std::vector<double> co; for(int i=0;i<n;++i){ ce(i)=2*r.n(); wi(i)=std::fabs(3*r.n())+0.1; co.push_back(r.b(0.5)?std::fabs(r.n()):r.n()); }
  mpart::Sigmoid1d<HS,mpart::Logistic> s{CVec(ce),CVec(wi)}; if(n) s.SetCoeffs(Kokkos::View<const double*,HS>(kvec(co))); Cols X,Se; for(int j=0;j<N;++j){ X.push_back({r.n()*r.pick({0.1,2.0,20.0})}); Se.push_back({r.n()}); }
  c.describe(S()<<"sigmoid centers "<<n<<" points "<<N); c.cover(S()<<"sig"<<n<<"/"<<N); Arr x(X,1,r.i(0,5)), se(Se,1,r.i(0,5)), o(1,N,r.i(0,5)), g(1,N,r.i(0,5)), g2(1,N), cg(n,N,r.i(0,5)), cg2(n,N);
  o.fill(std::nan("")); g.fill(3); cg.fill(std::nan("")); if(N&&n){ s.EvaluateImpl(x.c(),o.m()); s.GradientImpl(x.c(),se.c(),g.m()); s.GradientImpl(se.c(),x.c(),g2.m()); s.CoeffGradImpl(x.c(),se.c(),cg.m()); s.CoeffGradImpl(se.c(),x.c(),cg2.m()); }
  if(!(N&&n)) return;
  for(int j=0;j<N;++j){ long double v=0,d=0,lo=0,hi=0,mag=0,dm=0; std::vector<double> phi(n); for(int i=0;i<n;++i){ long double t=(long double)wi(i)*((long double)X[j][0]-ce(i)), q=1/(1+expl(-t)), qp=expl(-fabsl(t))/((1+expl(-fabsl(t)))*(1+expl(-fabsl(t)))); phi[i]=double(q); v+=co[i]*q; d+=co[i]*wi(i)*qp; (co[i]>0?hi:lo)+=co[i]; mag+=fabsl(co[i]); dm+=fabsl(co[i]*wi(i)); }
    double tv=double(64*EPS*mag*(1+20)), td=double(64*EPS*dm*(1+20)); double V=o.at(0,j);
    c.check(std::fabs(V-double(v))<=tv,"sigmoid-value",[&]{return S()<<"value "<<V<<" expected "<<double(v);}); c.check(V>=double(lo)-tv&&V<=double(hi)+tv,"sigmoid-range",[&]{return S()<<"value "<<V<<" outside ["<<double(lo)<<","<<double(hi)<<"]";});
    double want=Se[j][0]*double(d); auto near=[&](double a,double b,double t){ return std::fabs(a-b)<=t*(1+std::fabs(Se[j][0])); };
    bool ok=near(g.at(0,j),want,td), sw=near(g2.at(0,j),want,td); c.eval(); if(!ok) c.fail(sw?"sigmoid-gradient-args":"sigmoid-gradient",S()<<"Gradient(pts,sens) = "<<g.at(0,j)<<" expected "<<want);
    for(int i=0;i<n;++i){ double w=Se[j][0]*phi[i]; c.eval(); if(!near(cg.at(i,j),w,1e-13)) c.fail(near(cg2.at(i,j),w,1e-13)?"sigmoid-gradient-args":"sigmoid-coeffgrad",S()<<"CoeffGrad(pts,sens) = "<<cg.at(i,j)<<" expected "<<w); } }
  c.check(o.padsIntact()&&g.padsIntact()&&cg.padsIntact(),"sigmoid-writes-outside","a sigmoid wrote outside its output"); c.count("sigmoid_points",N);
}
static void c14(Ctx& c){
  auto& r=c.rng; int k=r.i(0,19);
  if(k<5){ rectCase(c); return; } if(k==5){ sigmoidCase(c); return; }
  if(k==6&&r.b(0.15)){ int q=r.i(0,2), n=r.i(2,30); if(q==0) orthonormal(c,mpart::ProbabilistHermite(true),0,n,0.5,"prob"); else if(q==1) orthonormal(c,mpart::PhysicistHermite(true),0,n,1.0,"phys"); else orthonormal(c,mpart::HermiteFunction(),2,n,0.0,"hfun"); return; }
  Basis b; b.fam=Fam(r.i(0,2)); b.norm= b.fam==HFUN? false : r.b(); b.lin=r.b();
  if(b.lin){ double a=-std::fabs(r.n())*2-0.05, u=std::fabs(r.n())*2+0.05; if(r.b(0.2)){ a=r.n()*3; u=a+std::fabs(r.n())+0.01; } int q=r.i(0,4); b.lb= q==1?-INF:a; b.ub= q==2? INF:u; }
  std::string nm=std::string(b.fam==PROB?"prob":b.fam==PHYS?"phys":"hfun")+(b.norm?"-norm":"")+(b.lin?"-lin":"");
  if(b.fam==PROB){ mpart::ProbabilistHermite p(b.norm); if(b.lin) basisCase(c,mpart::LinearizedBasis<mpart::ProbabilistHermite>(p,b.lb,b.ub),b,nm); else basisCase(c,p,b,nm); }
  else if(b.fam==PHYS){ mpart::PhysicistHermite p(b.norm); if(b.lin) basisCase(c,mpart::LinearizedBasis<mpart::PhysicistHermite>(p,b.lb,b.ub),b,nm); else basisCase(c,p,b,nm); }
  else { mpart::HermiteFunction p; if(b.lin){ if(r.b()) basisCase(c,mpart::LinearizedBasis<mpart::HermiteFunction>(p,b.lb,b.ub),b,nm); else basisCase(c,mpart::LinearizedBasis<mpart::HermiteFunction>(b.lb,b.ub),b,nm); } else basisCase(c,p,b,nm); }
}

// ---------------------------------------------------------------- C15
typedef mpart::ClenshawCurtisQuadrature<HS> CCQ; typedef mpart::AdaptiveSimpson<HS> ASQ; typedef mpart::AdaptiveClenshawCurtis<HS> ACQ;
struct Trace { std::vector<double> x; };
// integrands with every derivative of one sign on the interval, so that the difference of two nested rules bounds the error
struct Smooth { int kind; double k,c0,s,x0=0; std::vector<double> co;
  double f(double x) const { switch(kind){ case 0: return s*std::exp(k*(x-x0)); case 1: return s/(x+c0); case 2: { double v=0; for(int i=int(co.size())-1;i>=0;--i) v=v*(x+c0)+co[i]; return v; } default: return s; } }
  long double F(long double x) const { switch(kind){ case 0: return fabs(k)<1e-12? s*x : s*expl(k*(x-(long double)x0))/k; case 1: return s*logl(x+c0); case 2: { long double v=0; for(int i=int(co.size())-1;i>=0;--i) v=v*(x+c0)+co[i]/(i+1.0L); return v*(x+c0); } default: return s*x; } }
};
static Smooth genSmooth(Rng& r,double lo,double hi,bool cc){ Smooth q; q.kind=r.i(0,3); q.s=std::pow(10.0,r.u(-2,2)); q.k=0; q.c0=0; if(q.kind==0) q.k=r.pick({1.0,-1.0})*r.u(0.1,cc?7.0:20.0)/(hi-lo+1e-3)*r.u(0.2,1.0); if(q.kind==1) q.c0=-lo+(hi-lo)*std::pow(10.0,r.u(cc?-0.6:-2.5,0.5))+1e-3; if(q.kind==2){ q.c0=-lo; int n=r.i(1,9); for(int i=0;i<n;++i) q.co.push_back(r.u(0,2)); } 
  if(q.kind==0) q.x0= q.k>0? hi:lo;
  return q; }
template<class F> static void ccCase(Ctx& c,F&&){
  auto& r=c.rng; int n= r.b(0.3)? r.i(1,5) : r.i(1,40); int fdim=r.i(1,4); double a=r.n()*2, b=a+r.pick({1.0,-1.0})*std::pow(10.0,r.u(-3,1)); if(r.b(0.1)) b=a; if(r.b(0.1)) b=a+1e-15*r.n();
  c.describe(S()<<"clenshaw-curtis n="<<n<<" fdim="<<fdim<<" ["<<a<<","<<b<<"]"); c.cover(S()<<"cc"<<n<<" "<<fdim<<" "<<(b>a)); 
  std::vector<double> x,w; ccRule(n,x,w); Buf pts(n),wts(n); CCQ::GetRule(n,wts.d(),pts.d()); double ws=0;
  for(int i=0;i<n;++i){ c.eval(2); ws+=wts[i]; double rx=2*x[i]-1, rw=2*w[i]; if(!(std::fabs(pts[i]-rx)<=8*EPS)) { c.fail("cc-points",S()<<"point "<<i<<" of "<<n<<" is "<<pts[i]<<" expected "<<rx); break; } if(!(std::fabs(wts[i]-rw)<=32*EPS)) { c.fail("cc-weights",S()<<"weight "<<i<<" of "<<n<<" is "<<wts[i]<<" expected "<<rw); break; } }
  c.check(std::fabs(ws-2)<=64*EPS,"cc-weight-sum","weights do not sum to two");
  // polynomials of degree below n, in powers of (x-mid)/half
  int deg=r.i(0,n-1); std::vector<std::vector<double>> co(fdim,std::vector<double>(deg+1)); for(auto&v:co) for(auto&q:v) q=r.n(); double mid=0.5*(a+b), half=0.5*std::fabs(b-a); if(half==0) half=1; std::vector<double> tr;
  auto poly=[&](double t,int k){ double u=(t-mid)/half, v=0; for(int i=deg;i>=0;--i) v=v*u+co[k][i]; return v; };
  int calls=0; auto f=[&](double t,double* o){ ++calls; tr.push_back(t); for(int k=0;k<fdim;++k) o[k]=poly(t,k); };
  Buf res(fdim),res2(fdim),work(CCQ::GetWorkspaceSize(fdim)); bool internal=r.b(0.4); 
  Kokkos::View<double*,HS> pv(std::string("p"),n), wv(std::string("w"),n);
  if(internal){ CCQ q(n,fdim); q.Integrate(f,a,b,res.d()); } else if(r.b()){ CCQ q(n,fdim,work.d()); q.Integrate(f,a,b,res.d()); } else { CCQ q(pv,wv,fdim,nullptr); q.Integrate(work.d(),f,a,b,res.d()); }
  double lo=std::min(a,b), hi=std::max(a,b), ul=4*EPS*(std::fabs(a)+std::fabs(b)); for(double t:tr) c.check(t>=lo-ul&&t<=hi+ul,"node-outside",[&]{return S()<<"integrand evaluated at "<<t<<" outside ["<<lo<<","<<hi<<"]";});
  c.check(calls<=n,"cc-evaluations",[&]{return S()<<calls<<" evaluations by an "<<n<<"-point rule";});
  std::vector<double> one; double sgn= b>=a?1:-1;
  for(int k=0;k<fdim;++k){ long double I=0; double mag=0; for(int i=0;i<=deg;++i){ if(i%2==0) I+=2.0L*co[k][i]/(i+1); mag+=2*std::fabs(co[k][i])*(1+i*ul/half); } double want= a==b?0: sgn*double(I)*half; double cond=1+(std::fabs(mid)/half)*deg; // rounding of the node positions
    double tiny= std::fabs(b-a)<16*EPS? 2*mag*std::fabs(b-a) : 0.0; // the documented midpoint rule for negligible intervals
    c.check(std::fabs(res[k]-want)<=64*EPS*mag*half*cond+64*EPS*n*mag*half+tiny,"cc-exactness",[&]{return S()<<"component "<<k<<": "<<res[k]<<" expected "<<want<<" for a polynomial of degree "<<deg<<" with "<<n<<" points";});
    CCQ q1(n,1); auto f1=[&](double t,double* o){ o[0]=poly(t,k); }; double v; q1.Integrate(f1,a,b,&v); c.check(sameBits(v,res[k]),"cc-component",[&]{return S()<<"component "<<k<<" gives "<<res[k]<<" but alone "<<v;}); }
  CCQ qr(n,fdim); qr.Integrate(f,b,a,res2.d()); for(int k=0;k<fdim;++k){ double mag=0; for(auto v:co[k]) mag+=2*std::fabs(v); c.check(std::fabs(res[k]+res2[k])<=256*EPS*n*mag*half*(1+std::fabs(mid)/half*deg),"cc-reversal",[&]{return S()<<"reversed interval gives "<<res2[k]<<" instead of "<<-res[k];}); }
  c.count("cc_rules");
}
struct Adapt { int type; unsigned level,maxSub,minSub; double abs,rel; mpart::QuadError::Type m; };
// one run of an adaptive rule; junk is what the caller's workspace contained before
static bool adaptRun(Adapt const& A,int fdim,std::function<void(double,double*)> const& f,double a,double b,double* res,int how,double junk,long cap=-1,long* ncalls=nullptr,bool* guardOk=nullptr){
  long calls=0; struct TooMany{}; auto g=[&](double t,double* o){ ++calls; if(cap>0&&calls>cap) throw TooMany(); f(t,o); }; bool ok=true;
  try {
    unsigned sz= A.type==1? ASQ::GetWorkspaceSize(A.maxSub,fdim) : ACQ::GetWorkspaceSize(A.maxSub,fdim); Buf w(sz); for(unsigned i=0;i<sz;++i) w[i]=junk; // the sanitizer watches both ends
    if(A.type==1){ if(how==0){ ASQ q(A.maxSub,fdim,A.abs,A.rel,A.m,A.minSub); q.Integrate(g,a,b,res); } else if(how==1){ ASQ q(A.maxSub,fdim,w.d(),A.abs,A.rel,A.m,A.minSub); q.Integrate(g,a,b,res); } else if(how==2){ ASQ q(A.maxSub,fdim,nullptr,A.abs,A.rel,A.m,A.minSub); q.Integrate(w.d(),g,a,b,res); } else { ASQ q(A.maxSub,fdim+2,A.abs,A.rel,A.m,A.minSub); q.SetDim(fdim); q.Integrate(g,a,b,res); } }
    else { if(how==0){ ACQ q(A.level,A.maxSub,fdim,A.abs,A.rel,A.m,A.minSub); q.Integrate(g,a,b,res); } else if(how==1){ ACQ q(A.level,A.maxSub,fdim,w.d(),A.abs,A.rel,A.m,A.minSub); q.Integrate(g,a,b,res); } else if(how==2){ unsigned nc=(1u<<A.level)+1, nf=(1u<<(A.level+1))+1; Kokkos::View<double*,HS> cp(std::string("cp"),nc),cw(std::string("cw"),nc),fp(std::string("fp"),nf),fw(std::string("fw"),nf); ACQ q(cp,cw,fp,fw,A.maxSub,fdim,nullptr,A.abs,A.rel,A.m,A.minSub); q.Integrate(w.d(),g,a,b,res); } else { ACQ q(A.level,A.maxSub,fdim+2,A.abs,A.rel,A.m,A.minSub); q.SetDim(fdim); q.Integrate(g,a,b,res); } }
  } catch(TooMany&){ ok=false; }
  if(ncalls) *ncalls=calls; (void)guardOk; return ok;
}
static void adaptCase(Ctx& c){
  auto& r=c.rng; Adapt A; A.type=r.i(1,2); A.level=r.i(1,4); A.maxSub=r.pick({25u,30u,30u,40u,60u}); A.minSub=r.b(0.6)?0:r.i(1,4); A.abs=std::pow(10.0,-r.u(2,10)); A.rel=r.b(0.3)?0.0:std::pow(10.0,-r.u(2,10)); if(r.b(0.15)){ A.abs=0; A.rel=std::pow(10.0,-r.u(2,8)); } A.m=mpart::QuadError::Type(r.i(0,3)); int fdim=r.i(1,4);
  double a=r.n()*2, len=std::pow(10.0,r.u(-2,0.8)), b=a+len; bool rev=r.b(0.25); if(r.b(0.3)){ a=0; b=1; }
  std::vector<Smooth> F; for(int k=0;k<fdim;++k) F.push_back(genSmooth(r,a,b,A.type==2)); if(r.b(0.3)){ F[0].kind=3; } // nothing to do for the first component alone
  double A0= rev? b:a, B0= rev? a:b; double tinyTol=0; std::vector<double> I(fdim), absI(fdim); for(int k=0;k<fdim;++k){ I[k]=double(F[k].F(B0)-F[k].F(A0)); absI[k]=std::fabs(I[k]); } 
  // rounding keeps the difference of two rules from falling below this; ask for clearly more
  double mx=0; for(double v:absI) mx=std::max(mx,v); tinyTol=1e-12*mx*(1+(std::fabs(a)+std::fabs(b))/(b-a)*1e-3); if(A.abs<tinyTol&&A.rel<1e-10) A.abs=tinyTol; if(A.abs==0&&A.rel==0) A.abs=1e-6;
  const char* mn[]={"First","NormInf","Norm2","Norm1"}; std::string rule= A.type==1?"simpson":"acc";
  c.describe(S()<<"adaptive "<<rule<<" level "<<A.level<<" maxSub "<<A.maxSub<<" minSub "<<A.minSub<<" abs "<<A.abs<<" rel "<<A.rel<<" metric "<<mn[A.m]<<" fdim "<<fdim<<" ["<<A0<<","<<B0<<"] kinds "<<F[0].kind<<(fdim>1?F[1].kind:9)<<" k "<<F[0].k);
  std::vector<double> tr; auto f=[&](double t,double* o){ tr.push_back(t); for(int k=0;k<fdim;++k) o[k]=F[k].f(t); };
  Buf res(fdim); int how=r.i(0,3); double junk=r.pick({0.0,std::nan(""),1e308,-INF}); long calls; long cap=400000;
  if(!adaptRun(A,fdim,f,A0,B0,res.d(),how,junk,cap,&calls)){ c.fail("evaluations:"+rule,S()<<"more than "<<cap<<" evaluations for a smooth integrand"); return; }
  double ul=8*EPS*(std::fabs(a)+std::fabs(b)); for(double t:tr) if(!(t>=a-ul&&t<=b+ul)){ c.fail("node-outside:"+rule,S()<<"integrand evaluated at "<<t<<" outside ["<<a<<","<<b<<"]"); break; } c.eval(tr.size());
  std::set<double> nodes(tr.begin(),tr.end()); double minGap=INF; { double p=-INF; for(double t:nodes){ if(t-p<minGap) minGap=t-p; p=t; } }
  long leaves; if(A.type==1) leaves=(calls-1)/4; else { long per=(1L<<(A.level+1))-1; long iv=(calls-2+per-1)/per; leaves=(iv+1)/2; } leaves=std::max(leaves,long(nodes.size())/3+1);
  c.cover(S()<<rule<<A.level<<" "<<mn[A.m]<<" "<<fdim<<" "<<A.minSub<<" "<<int(std::log2(double(leaves)))<<" "<<rev<<how); c.count("adaptive_runs"); c.count("leaves_"+rule,leaves); if(leaves>1) c.count("subdivided_"+rule);
  // budget
  double dyad=std::pow(0.5,double(A.maxSub)); (void)dyad; 
  // minimum level: every dyadic point of that level is a node
  if(A.minSub>0){ int parts=1<<std::min<unsigned>(A.minSub,A.maxSub-1); for(int i=0;i<=parts;++i){ double t=a+(b-a)*i/parts; auto it=nodes.lower_bound(t-4*ul-1e-14*(b-a)); c.check(it!=nodes.end()&&*it<=t+4*ul+1e-14*(b-a),"min-subdivision:"+rule,[&]{return S()<<"node "<<t<<" required by the minimum level is missing";}); } }
  // accuracy: the sum of what each accepted subinterval was allowed
  double relSum=0; for(double v:absI) relSum+=v; if(A.m==mpart::QuadError::First) relSum=absI[0];
  for(int k=0;k<fdim;++k){ if(A.m==mpart::QuadError::First&&k>0) break; double lim=1.5*(leaves*A.abs+A.rel*relSum*1.02)+1e-12*(absI[k]+mx)*(1+(std::fabs(a)+std::fabs(b))/(b-a)); c.count("tolerance_checks");
    c.check(std::fabs(res[k]-I[k])<=lim,"tolerance:"+rule+":"+mn[A.m],[&]{return S()<<"component "<<k<<" of "<<fdim<<": "<<res[k]<<" but the integral is "<<I[k]<<" (difference "<<std::fabs(res[k]-I[k])<<", allowed "<<lim<<" on "<<leaves<<" subintervals)";}); }
  // independence of the workspace content and of who owns it
  Buf r2(fdim); adaptRun(A,fdim,f,A0,B0,r2.d(),r.i(0,3),r.pick({std::nan(""),-3.0,1e300}),cap); for(int k=0;k<fdim;++k) c.check(sameBits(res[k],r2[k]),"workspace-dependence:"+rule,[&]{return S()<<"component "<<k<<" is "<<res[k]<<" or "<<r2[k]<<" depending on the workspace";});
  // the first component steers; each component only sees its own values
  if(A.m==mpart::QuadError::First){ double v; auto f1=[&](double t,double* o){ o[0]=F[0].f(t); }; adaptRun(A,1,f1,A0,B0,&v,r.i(0,3),0.0,cap); c.check(sameBits(v,res[0]),"component-independence:"+rule,[&]{return S()<<"component 0 is "<<res[0]<<" but alone "<<v;});
    int k=r.i(0,fdim-1); double v2[2]; auto f2=[&](double t,double* o){ o[0]=F[0].f(t); o[1]=F[k].f(t); }; adaptRun(A,2,f2,A0,B0,v2,r.i(0,3),0.0,cap); c.check(sameBits(v2[1],res[k]),"component-independence:"+rule,[&]{return S()<<"component "<<k<<" is "<<res[k]<<" but next to the first one "<<v2[1];}); }
  else { // permuting the components permutes the result, up to rounding in the metric
    std::vector<int> p(fdim); for(int i=0;i<fdim;++i) p[i]=fdim-1-i; Buf rp(fdim); auto fp=[&](double t,double* o){ for(int k=0;k<fdim;++k) o[k]=F[p[k]].f(t); }; adaptRun(A,fdim,fp,A0,B0,rp.d(),0,0.0,cap); for(int k=0;k<fdim;++k){ double lim=3*(leaves*A.abs+A.rel*relSum)+1e-11*(absI[p[k]]+mx)*(1+(std::fabs(a)+std::fabs(b))/(b-a)); c.check(std::fabs(rp[k]-res[p[k]])<=lim,"component-permutation:"+rule,"permuting the components changes their integrals"); } }
}
// polynomials for which both nested rules are exact: nothing may be subdivided beyond the minimum, and the value is exact
static void adaptExact(Ctx& c){
  auto& r=c.rng; Adapt A; A.type=r.i(1,2); A.level=r.i(1,4); A.maxSub=r.pick({1u,2u,3u,10u,30u}); A.minSub=r.i(0,3); A.abs=1e-3; A.rel=1e-6; A.m=mpart::QuadError::Type(r.i(0,3)); int fdim=r.i(1,5); int deg= A.type==1? r.i(0,3) : r.i(0,(1<<A.level)); double a=r.n(), b=a+r.pick({1.0,-1.0})*r.u(0.1,3);
  std::vector<std::vector<double>> co(fdim,std::vector<double>(deg+1)); for(auto&v:co) for(auto&q:v) q=r.n(); double mid=0.5*(a+b), half=0.5*std::fabs(b-a); std::vector<double> tr; auto f=[&](double t,double* o){ tr.push_back(t); for(int k=0;k<fdim;++k){ double u=(t-mid)/half,v=0; for(int i=deg;i>=0;--i) v=v*u+co[k][i]; o[k]=v; } };
  std::string rule= A.type==1?"simpson":"acc"; c.describe(S()<<"adaptive exact "<<rule<<" level "<<A.level<<" sub "<<A.minSub<<".."<<A.maxSub<<" degree "<<deg<<" fdim "<<fdim); c.cover(S()<<"x"<<rule<<A.level<<A.minSub<<A.maxSub<<deg); Buf res(fdim); adaptRun(A,fdim,f,a,b,res.d(),r.i(0,3),std::nan(""));
  for(int k=0;k<fdim;++k){ double I=0,mag=0; for(int i=0;i<=deg;++i){ if(i%2==0) I+=2*co[k][i]/(i+1); mag+=2*std::fabs(co[k][i]); } I*= b>a? half:-half; c.check(std::fabs(res[k]-I)<=1e-12*mag*half*(1+std::fabs(mid)/half),"adaptive-exactness:"+rule,[&]{return S()<<"component "<<k<<": "<<res[k]<<" expected "<<I<<" for degree "<<deg;}); }
  std::set<double> nodes(tr.begin(),tr.end()); double lv=std::min<double>(A.minSub,A.maxSub-1); double ivs=std::pow(2.0,lv+1)-1; double most= A.type==1? 3+2*ivs : 2+ivs*((1<<(A.level+1))-1); c.check(nodes.size()<=most*1.0+0.5,"needless-subdivision:"+rule,[&]{return S()<<nodes.size()<<" distinct nodes where "<<most<<" suffice";}); c.count("exact_runs");
}
// rough integrands: the subdivision budget holds and the routine ends, also when values are not finite
static void adaptBudget(Ctx& c){
  auto& r=c.rng; Adapt A; A.type=r.i(1,2); A.level=r.i(1,3); A.maxSub=r.i(0,9); if(r.b(0.1)) A.maxSub=r.pick({30u,40u}); A.minSub=r.b(0.7)?0:r.i(1,12); A.abs=r.b(0.3)?0.0:std::pow(10.0,-r.u(3,18)); A.rel=r.b(0.5)?0.0:std::pow(10.0,-r.u(3,18)); A.m=mpart::QuadError::Type(r.i(0,3)); int fdim=r.i(1,3); if(A.maxSub>9) A.minSub=0;
  double a=r.n(), b=a+r.pick({1.0,-1.0})*r.u(0.1,3); int kind=r.i(0,5); double x0=r.u(std::min(a,b),std::max(a,b)); if(A.maxSub>9&&(kind!=0)) kind=5; if(A.maxSub>9){ A.abs=1e-3; A.rel=0; }
  std::string rule= A.type==1?"simpson":"acc"; c.describe(S()<<"adaptive budget "<<rule<<" level "<<A.level<<" sub "<<A.minSub<<".."<<A.maxSub<<" abs "<<A.abs<<" rel "<<A.rel<<" kind "<<kind<<" fdim "<<fdim); c.cover(S()<<"b"<<rule<<A.level<<A.minSub<<" "<<A.maxSub<<kind);
  std::vector<double> tr; auto f=[&](double t,double* o){ tr.push_back(t); for(int k=0;k<fdim;++k){ double v= kind==0? (t>x0?1.0:0.0) : kind==1? std::sqrt(std::fabs(t-x0)) : kind==2? std::sin(200*t) : kind==3? (t>x0? std::nan(""):1.0) : kind==4? (t>x0? INF:t) : std::nan(""); o[k]= k==0? v : v*(k+1)+t; } };
  Buf res(fdim); unsigned ms=std::max(1u,A.maxSub); double tree=std::pow(2.0,double(ms))-1; double most= A.type==1? 3+2*tree : 2+tree*((1<<(A.level+1))-1); long calls=0; long cap= ms<=12? long(4*most+100) : 2000000; bool ok=adaptRun(A,fdim,f,a,b,res.d(),r.i(0,3),std::nan(""),cap,&calls);
  c.check(ok,"budget:"+rule,[&]{return S()<<"more than "<<cap<<" evaluations";}); std::set<double> nodes(tr.begin(),tr.end()); c.check(double(nodes.size())<=most+0.5,"budget:"+rule,[&]{return S()<<nodes.size()<<" distinct nodes, the budget allows "<<most;});
  double lo=std::min(a,b),hi=std::max(a,b),ul=8*EPS*(std::fabs(a)+std::fabs(b)); for(double t:tr) if(!(t>=lo-ul&&t<=hi+ul)){ c.fail("node-outside:"+rule,S()<<"integrand evaluated at "<<t); break; } c.eval(tr.size());
  if(ok&&kind==5) c.check(std::isnan(res[0]),"nan-integrand:"+rule,"an integrand that is NaN everywhere gives a number"); 
  if(ok&&kind==0&&A.maxSub>9){ double I= b>a? b-x0 : -(a-x0)+0; if(b<a) I=-(a-x0); c.check(std::fabs(res[0]-I)<=0.02,"step-integral:"+rule,[&]{return S()<<"integral of a step "<<res[0]<<" expected "<<I;}); }
  c.count("budget_runs");
}
static void c15(Ctx& c){ int k=c.rng.i(0,9); if(k<3) ccCase(c,0); else if(k<7) adaptCase(c); else if(k==7) adaptExact(c); else adaptBudget(c); }

// ---------------------------------------------------------------- C16
struct Mono { int kind; double s,a,b,c0; 
  double operator()(double x) const { double u=x-s; switch(kind){ case 0: return a*u+b; case 1: return u*u*u+1e-3*u; case 2: return std::exp(std::min(a*u,700.0))+ (a*u>700? a*u-700:0.0); case 3: return std::sinh(std::max(-700.0,std::min(700.0,u)))+u; case 4: return u<0? b*u : a*u; case 5: return std::atan(a*u)+1e-4*u; case 6: return a*u+0.9*a*std::sin(u); case 7: return std::log1p(std::exp(-std::fabs(u)))+std::max(u,0.0)+1e-6*u; case 8: return u + (u>c0? a*(u-c0):0.0) + (u< -c0? b*(u+c0):0.0); default: return std::cbrt(u)+1e-5*u; } } };
static void c16(Ctx& c){
  auto& r=c.rng; Mono f; f.kind=r.i(0,9); f.s=r.b(0.3)?0.0:r.n()*std::pow(10.0,r.u(-2,3)); f.a=std::pow(10.0,r.u(-4,5)); f.b=std::pow(10.0,r.u(-4,4)); f.c0=std::fabs(r.n()); if(f.kind==2) f.a=std::pow(10.0,r.u(-1,1)); if(f.kind==5) f.a=std::pow(10.0,r.u(-2,5)); 
  int scen=r.i(0,11); double x0=r.n()*std::pow(10.0,r.u(-2,3)); if(r.b(0.2)) x0=0; double xtol=std::pow(10.0,-r.u(2,11)), ftol=std::pow(10.0,-r.u(2,13)); std::vector<double> tr; long calls=0; struct TooMany{};
  auto g=[&](double x){ ++calls; if(calls>60000) throw TooMany(); tr.push_back(x); return f(x); };
  if(scen<=8){ // attainable target
    double z=f.s+r.n()*std::pow(10.0,r.u(-3,2.5)); if(r.b(0.1)) z=x0; if(f.kind==2&&f.a*(z-f.s)<-25) z=f.s-25/f.a; double big=std::fabs(z)+std::fabs(x0)+std::fabs(z-x0)*3+2; xtol=std::max(xtol,16*EPS*big*2); double yd=f(z); if(!std::isfinite(yd)) return;
    // average slope over anything searched stays clear of the documented cut-off
    double lo=std::min(z,x0)-4*(std::fabs(z-x0)+2), hi=std::max(z,x0)+4*(std::fabs(z-x0)+2); bool flat=false; for(int i=0;i<64;++i){ double p=lo+(hi-lo)*i/64,q=lo+(hi-lo)*(i+1)/64; if(!((f(q)-f(p))/(q-p)>1e-11)||!std::isfinite(f(q)-f(p))) flat=true; } if(flat){ c.count("flat_skipped"); return; }
    c.describe(S()<<"root kind "<<f.kind<<" s="<<f.s<<" a="<<f.a<<" b="<<f.b<<" c="<<f.c0<<" yd="<<yd<<" (x="<<z<<") x0="<<x0<<" xtol="<<xtol<<" ftol="<<ftol); c.cover(S()<<f.kind<<" "<<int(std::floor(std::log10(f.a)))<<" "<<int(std::log2(1+std::fabs(z-x0)))<<(z>x0)<<int(std::log10(xtol))<<int(std::log10(ftol)));
    double noise=8*EPS*(std::fabs(yd)+std::fabs(f(z+xtol))+ (f.kind==0?f.b:0)+f.a*std::fabs(z)*1.0+std::fabs(f.s)*std::fabs(f(z+xtol)-f(z))/xtol)+1e-300; int info=7;
    if(scen<=6){ double res; try { res=mpart::RootFinding::InverseSingleBracket<HS>(yd,g,x0,xtol,ftol,info); } catch(TooMany&){ c.fail("not-terminating",S()<<"more than 60000 function evaluations"); return; }
      c.check(info>=0,"info",[&]{return S()<<"info "<<info<<" for an attainable target, result "<<res;}); bool fin=std::isfinite(res); c.check(fin,"not-found",[&]{return S()<<"result "<<res<<" (info "<<info<<") for an attainable target";}); if(!fin) return;
      bool ok=(f(res-xtol*1.001)<=yd+noise&&f(res+xtol*1.001)>=yd-noise)||std::fabs(f(res)-yd)<=ftol*1.001+noise; c.check(ok,"inaccurate",[&]{return S()<<"result "<<res<<" with f="<<f(res)<<" is neither within "<<xtol<<" of the root nor within "<<ftol<<" of the target";});
      double dist=std::fabs(z-x0); double bound=4*(std::log2(1+dist)+std::log2((dist+2)/xtol))+40; c.check(calls<=bound,"work",[&]{return S()<<calls<<" function evaluations, bound "<<bound;}); c.count("roots_found"); c.count("function_evaluations",calls); }
    else { // the bracket search alone, from an interval or a single point
      double xl=x0, xu= r.b()? x0 : x0+std::fabs(r.n())*std::pow(10.0,r.u(-2,2)); double yl=0,yu=0; int inf=7; double XL=xl,XU=xu; try { mpart::RootFinding::FindBracket<HS>(g,xl,yl,xu,yu,yd,inf); } catch(TooMany&){ c.fail("not-terminating","bracket search does not end"); return; }
      c.check(inf>=0,"bracket-info",[&]{return S()<<"bracket info "<<inf<<" from ["<<XL<<","<<XU<<"]";}); if(inf<0) return; c.check(xl<=xu&&yl<=yd&&yu>=yd,"bracket",[&]{return S()<<"bracket ["<<xl<<","<<xu<<"] with values ["<<yl<<","<<yu<<"] does not enclose "<<yd<<" (from ["<<XL<<","<<XU<<"])";}); c.check(sameBits(yl,f(xl))&&sameBits(yu,f(xu)),"bracket-values",[&]{return S()<<"bracket values "<<yl<<","<<yu<<" are not the function values "<<f(xl)<<","<<f(xu)<<" at its ends";}); c.check(calls<=4*std::log2(2+std::fabs(z-x0))+20,"bracket-work",[&]{return S()<<calls<<" evaluations";}); c.count("brackets_found"); }
    return; }
  // targets that are not attained, or not numbers
  int kind=r.i(0,4); double yd=r.n(); double cut=x0+r.n()*5; bool up=r.b(); std::function<double(double)> h;
  if(kind==0){ h=[&](double x){ return std::atan(x-f.s); }; yd= up? 10.0+std::fabs(r.n()) : -10.0-std::fabs(r.n()); }
  else if(kind==1){ h=[&](double){ return std::nan(""); }; }
  else if(kind==2){ h=[&](double x){ return x-f.s; }; yd=std::nan(""); }
  else if(kind==3){ h=[&](double x){ return x>cut? std::nan("") : x; }; yd=cut+std::fabs(r.n())+1e-3; }
  else { h=[&](double x){ return 1.0/(1.0+std::exp(-(x-f.s))); }; yd= up? 1.5 : -0.5; }
  c.describe(S()<<"unattainable kind "<<kind<<" yd="<<yd<<" x0="<<x0<<" cut="<<cut); c.cover(S()<<"u"<<kind<<up<<int(std::log2(1+std::fabs(x0)))); int info=7; auto gh=[&](double x){ ++calls; if(calls>60000) throw TooMany(); return h(x); }; double res;
  try { res=mpart::RootFinding::InverseSingleBracket<HS>(yd,gh,x0,std::max(xtol,1e-9),ftol,info); } catch(TooMany&){ c.fail("not-terminating","unattainable target"); return; }
  c.check(std::isnan(res)||info<0,"number-for-unattainable",[&]{return S()<<"result "<<res<<" with info "<<info;}); c.check(std::isnan(res)&&info<0,"unattainable-report",[&]{return S()<<"result "<<res<<" with info "<<info;}); c.count("unattainable_reported");
}

// ---------------------------------------------------------------- C17
template<class B> static void worker(Ctx& c,Expansion const& ex,B const& basis,bool dense){
  auto& r=c.rng; typedef mpart::MultivariateExpansionWorker<B,HS> W; namespace DF=mpart::DerivativeFlags; W w(fixedSet(ex.m,dense),basis); int d=ex.dim, T=ex.m.size();
  c.check(int(w.NumCoeffs())==T&&int(w.InputSize())==d,"worker-sizes","worker reports the wrong sizes");
  Buf cache(w.CacheSize()); auto co=genCoeffs(r,T,1.0); auto ck=kvec(co); auto pt=genPoint(r,d); static const DF::DerivativeType fl[]={DF::None,DF::Parameters,DF::Diagonal,DF::Diagonal2,DF::Mixed,DF::Input,DF::MixedInput}; Cmp cm;
  int reps=r.i(1,4); bool nanFill=r.b(0.8); if(!nanFill) for(int i=0;i<cache.n;++i) cache[i]=r.n();
  for(int rep=0;rep<reps;++rep){
    int k1= r.pick({0,1,2,3,4,5,6}); if(rep>0&&r.b(0.4)) pt=genPoint(r,d); auto pv=kvec(pt);
    if(rep>0&&r.b(0.3)){ w.FillCache2(cache.d(),pv,r.n(),DF::MixedInput); } // something stale
    w.FillCache1(cache.d(),pv,fl[k1]); bool in1= fl[k1]==DF::Input||fl[k1]==DF::MixedInput;
    int fills=r.i(1,3); for(int q=0;q<fills;++q){ int k2= r.pick({0,1,2,3,5,6}); double xd= r.b(0.2)? 0.0 : r.b(0.4)? pt[d-1] : genPoint(r,1)[0]; w.FillCache2(cache.d(),pv,xd,fl[k2]); bool d1= k2>=2, d2= fl[k2]==DF::Diagonal2||fl[k2]==DF::MixedInput;
      c.cover(S()<<"w"<<ex.basis.fam<<ex.basis.lin<<ex.basis.norm<<d<<k1<<k2<<dense);
      std::vector<double> x=pt; x[d-1]=xd; int sv=JN();
      auto ref0=[&](int nvar,bool wrtX){ JN()=nvar; std::vector<J> xj,cj; for(int i=0;i<d;++i) xj.push_back(wrtX?var(x[i],i):J(x[i])); for(int i=0;i<T;++i) cj.push_back(!wrtX&&nvar? var(co[i],i):J(co[i])); auto pre=prefixProducts(ex,xj); return line(ex,pre,cj.data(),xj[d-1],true,true,true); };
      Lines L=ref0(0,true); auto chk=[&](double got,E want,const char* what){ c.eval(); if(!close(got,want,cm)) c.fail(std::string("worker-")+what,S()<<what<<" "<<ref::show(got,want)<<" caches "<<k1<<"/"<<k2<<" xd="<<xd); };
      int ops=r.i(2,6); for(int o=0;o<ops;++o) switch(r.i(0,7)){
        case 0: chk(w.Evaluate(cache.d(),ck),L.f.v,"Evaluate"); break;
        case 1: if(d1) chk(w.DiagonalDerivative(cache.d(),ck,1),L.df.v,"DiagonalDerivative1"); break;
        case 2: if(d2) chk(w.DiagonalDerivative(cache.d(),ck,2),L.ddf.v,"DiagonalDerivative2"); break;
        case 3: { auto g=kvec(std::vector<double>(T,std::nan(""))); double v=w.CoeffDerivative(cache.d(),ck,g); chk(v,L.f.v,"CoeffDerivative-value"); Lines G=ref0(T,false); for(int i=0;i<T;++i) chk(g(i),G.f.d(i),"CoeffDerivative"); break; }
        case 4: if(in1&&(fl[k2]==DF::Input||fl[k2]==DF::MixedInput||d1)){ auto g=kvec(std::vector<double>(d,std::nan(""))); double v=w.InputDerivative(cache.d(),ck,g); chk(v,L.f.v,"InputDerivative-value"); Lines G=ref0(d,true); for(int i=0;i<d;++i) chk(g(i),G.f.d(i),"InputDerivative"); } break;
        case 5: if(in1&&d2){ auto g=kvec(std::vector<double>(d,std::nan(""))); double v=w.MixedInputDerivative(cache.d(),ck,g); chk(v,L.df.v,"MixedInputDerivative-value"); Lines G=ref0(d,true); for(int i=0;i<d;++i) chk(g(i),G.df.d(i),"MixedInputDerivative"); } break;
        case 6: if(d1){ auto g=kvec(std::vector<double>(T,std::nan(""))); double v=w.MixedCoeffDerivative(cache.d(),ck,1,g); chk(v,L.df.v,"MixedCoeffDerivative1-value"); Lines G=ref0(T,false); for(int i=0;i<T;++i) chk(g(i),G.df.d(i),"MixedCoeffDerivative1"); } break;
        default: if(d2){ auto g=kvec(std::vector<double>(T,std::nan(""))); double v=w.MixedCoeffDerivative(cache.d(),ck,2,g); chk(v,L.ddf.v,"MixedCoeffDerivative2-value"); Lines G=ref0(T,false); for(int i=0;i<T;++i) chk(g(i),G.ddf.d(i),"MixedCoeffDerivative2"); } }
      JN()=sv; c.count("cache_states"); } }
  c.count("compared",cm.done); c.count("ill_conditioned_skipped",cm.skipped);
}
template<class B> static FunP expansion(Ctx& c,Expansion const& ex,B const& basis,bool dense,int out){
  if(c.rng.b()) return std::make_shared<mpart::MultivariateExpansion<B,HS>>(out,fixedSet(ex.m,dense),basis);
  mpart::MultivariateExpansionWorker<B,HS> w(fixedSet(ex.m,dense),basis); return std::make_shared<mpart::MultivariateExpansion<B,HS>>(out,w); }
static void expansionCase(Ctx& c,Expansion const& ex,FunP f,int out){
  auto& r=c.rng; int d=ex.dim,T=ex.m.size(),nc=T*out,N=r.b(0.1)?r.i(20,60):r.i(1,5); Cmp cm;
  c.check(int(f->inputDim)==d&&int(f->outputDim)==out&&int(f->numCoeffs)==nc,"expansion-sizes",[&]{return S()<<"expansion reports "<<f->inputDim<<"->"<<f->outputDim<<" with "<<f->numCoeffs<<" coefficients";}); if(int(f->numCoeffs)!=nc) return;
  auto co=genCoeffs(r,nc,1.0); f->SetCoeffs(Kokkos::View<const double*,HS>(kvec(co))); Cols X,Se=genSens(r,out,N); for(int j=0;j<N;++j) X.push_back(genPoint(r,d)); Arr x(X,d,r.i(0,5)), se(Se,out,r.i(0,5)), v(out,N,r.i(0,5)), g(d,N,r.i(0,5)), cg(nc,N,r.i(0,5)); double fill=r.pick({0.0,std::nan(""),1e300}); v.fill(fill); g.fill(fill); cg.fill(fill); int order=r.i(0,5);
  auto run1=[&](int w){ bool impl=r.b(0.6); auto put=[&](Arr& a,Cols const& o){ for(int j=0;j<a.C;++j) for(int i=0;i<a.R;++i) a.at(i,j)=o[j][i]; };
    if(w==0){ if(impl) f->EvaluateImpl(x.c(),v.m()); else put(v,colsOf(f->Evaluate(x.c()))); } else if(w==1){ if(impl) f->GradientImpl(x.c(),se.c(),g.m()); else put(g,colsOf(f->Gradient(x.c(),se.c()))); } else { if(impl) f->CoeffGradImpl(x.c(),se.c(),cg.m()); else put(cg,colsOf(f->CoeffGrad(x.c(),se.c()))); } };
  run1(order%3); run1((order+1+order/3)%3); run1((order+2-order/3+3)%3); run1(0); run1(1); run1(2);
  c.check(v.padsIntact()&&g.padsIntact()&&cg.padsIntact(),"expansion-writes-outside","an expansion wrote outside its output"); int sv=JN();
  for(int j=0;j<N&&j<6;++j) for(int pass=0;pass<2;++pass){ JN()= pass? T : d; std::vector<J> xj; for(int i=0;i<d;++i) xj.push_back(pass?J(X[j][i]):var(X[j][i],i)); J tot(0.0);
    for(int o=0;o<out;++o){ std::vector<J> cj; for(int i=0;i<T;++i) cj.push_back(pass? var(co[o*T+i],i):J(co[o*T+i])); J y=expansionValue(ex,cj.data(),xj); if(!pass){ c.eval(); if(!close(v.at(o,j),y.v,cm)) c.fail("expansion-Evaluate",S()<<"output "<<o<<" of point "<<j<<" "<<ref::show(v.at(o,j),y.v)); tot=tot+Se[j][o]*y; } else { J t=Se[j][o]*y; for(int i=0;i<T;++i){ c.eval(); if(!close(cg.at(o*T+i,j),t.d(i),cm)) c.fail("expansion-CoeffGrad",S()<<"entry "<<o*T+i<<" of point "<<j<<" "<<ref::show(cg.at(o*T+i,j),t.d(i))); } } }
    if(!pass) for(int i=0;i<d;++i){ c.eval(); if(!close(g.at(i,j),tot.d(i),cm)) c.fail("expansion-Gradient",S()<<"entry "<<i<<" of point "<<j<<" "<<ref::show(g.at(i,j),tot.d(i))); } }
  JN()=sv; c.count("compared",cm.done); c.count("ill_conditioned_skipped",cm.skipped); c.count("expansion_points",N);
}
template<class B> static void both(Ctx& c,Expansion const& ex,B const& b,bool dense,int mode,int out){ if(mode==0) worker(c,ex,b,dense); else expansionCase(c,ex,expansion(c,ex,b,dense,out),out); }
static void c17(Ctx& c){
  auto& r=c.rng; Expansion ex; ex.basis.fam=Fam(r.i(0,2)); ex.basis.norm= ex.basis.fam==HFUN?false:r.b(); int d=r.i(1,5); ex.m=genMultis(r,d,r.i(1,20),r.i(1,7)); ex.init(); if(r.b(0.45)){ ex.basis.lin=true; double a=-r.u(0.2,3), b=r.u(0.2,3); int q=r.i(0,4); ex.basis.lb= q==1?-INF:a; ex.basis.ub= q==2?INF:b; }
  if(int(ex.m.size())>NMAX) ex.m.resize(NMAX); ex.init(); bool dense=r.b(0.3); int mode=r.i(0,2), out=r.i(1,4); auto& b=ex.basis;
  c.describe(S()<<(mode==0?"worker ":mode==1?"expansion ":"factory-expansion ")<<(b.fam==PROB?"prob":b.fam==PHYS?"phys":"hfun")<<(b.norm?" norm":"")<<(b.lin?" lin":"")<<(b.lin?S()<<b.lb<<","<<b.ub:S())<<(dense?" dense ":" ")<<gen::show(ex.m)<<" out "<<out); c.cover(S()<<"e"<<mode<<b.fam<<b.norm<<b.lin<<d<<dense<<out<<ex.m.size());
  if(mode==2){ mpart::MapOptions o; o.basisType= b.fam==PROB? mpart::BasisTypes::ProbabilistHermite : b.fam==PHYS? mpart::BasisTypes::PhysicistHermite : mpart::BasisTypes::HermiteFunctions; o.basisNorm=b.norm; if(b.lin){ o.basisLB=b.lb; o.basisUB=b.ub; } expansionCase(c,ex,mpart::MapFactory::CreateExpansion<HS>(out,fixedSet(ex.m,dense),o),out); return; }
  if(b.fam==PROB){ mpart::ProbabilistHermite p(b.norm); if(b.lin) both(c,ex,mpart::LinearizedBasis<mpart::ProbabilistHermite>(p,b.lb,b.ub),dense,mode,out); else both(c,ex,p,dense,mode,out); }
  else if(b.fam==PHYS){ mpart::PhysicistHermite p(b.norm); if(b.lin) both(c,ex,mpart::LinearizedBasis<mpart::PhysicistHermite>(p,b.lb,b.ub),dense,mode,out); else both(c,ex,p,dense,mode,out); }
  else { mpart::HermiteFunction p; if(b.lin) both(c,ex,mpart::LinearizedBasis<mpart::HermiteFunction>(b.lb,b.ub),dense,mode,out); else both(c,ex,p,dense,mode,out); }
}
static Reg r14("C14",c14), r15("C15",c15), r16("C16",c16), r17("C17",c17);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
