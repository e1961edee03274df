// Independent reference model of the maps: forward-mode automatic differentiation over numbers that carry a
// running rounding-error bound, so that every comparison has a tolerance derived from the conditioning of
// the quantity itself.
#pragma once
#include "vh.h"
#include <algorithm>
#include <memory>
#include "MParT/Quadrature.h"
#include "MParT/MapOptions.h"

namespace ref {

static const double EPS = 1.1102230246251565e-16;
static const double INF = std::numeric_limits<double>::infinity();

// value and error bound
struct E {
  double v=0, e=0;
  E(){} E(double v_,double e_=0): v(v_), e(e_) {}
};
inline E fin(double v,double e){ return E(v, e + EPS*std::fabs(v)); }
// the bound also covers any other order of summation
inline E operator+(E a,E b){ return E(a.v+b.v, a.e+b.e+EPS*(std::fabs(a.v)+std::fabs(b.v))); }
inline E operator-(E a,E b){ return E(a.v-b.v, a.e+b.e+EPS*(std::fabs(a.v)+std::fabs(b.v))); }
inline E operator-(E a){ return E(-a.v,a.e); }
inline E operator*(E a,E b){ double e=0; if(a.e!=0) e+=a.e*(std::fabs(b.v)+b.e); if(b.e!=0) e+=std::fabs(a.v)*b.e; return fin(a.v*b.v,e); }
inline E inv(E a){ double m=std::fabs(a.v)-a.e; if(!(m>0.5*std::fabs(a.v))) return E(1/a.v,INF); return fin(1/a.v, a.e/(m*m)); }
inline E operator/(E a,E b){ return a*inv(b); }
inline E operator*(double s,E a){ return E(s)*a; }

// first-order forward AD over E
static const int NMAX=48;
inline int& JN(){ static thread_local int n=0; return n; }
struct J {
  E v; E g[NMAX];
  bool c=true;  // constant: no derivatives stored
  J(){} J(double x): v(x) {} J(E x): v(x) {}
  J(J const& o): v(o.v), c(o.c) { if(!c) std::copy(o.g,o.g+JN(),g); }
  J& operator=(J const& o){ v=o.v; c=o.c; if(!c) std::copy(o.g,o.g+JN(),g); return *this; }
  E d(int i) const { return c? E(0): g[i]; }
};
inline J var(double x,int idx){ J r(x); r.c=false; for(int i=0;i<JN();++i) r.g[i]=E(0); r.g[idx]=E(1); return r; }
inline J operator+(J const& a,J const& b){ if(a.c&&b.c) return J(a.v+b.v); J r; r.c=false; r.v=a.v+b.v; for(int i=0;i<JN();++i) r.g[i]= a.c? b.g[i] : b.c? a.g[i] : a.g[i]+b.g[i]; return r; }
inline J operator-(J const& a){ J r; r.v=-a.v; r.c=a.c; if(!a.c) for(int i=0;i<JN();++i) r.g[i]=-a.g[i]; return r; }
inline J operator-(J const& a,J const& b){ if(a.c&&b.c) return J(a.v-b.v); J r; r.c=false; r.v=a.v-b.v; for(int i=0;i<JN();++i) r.g[i]= a.c? -b.g[i] : b.c? a.g[i] : a.g[i]-b.g[i]; return r; }
inline J operator*(J const& a,J const& b){ if(a.c&&b.c) return J(a.v*b.v); J r; r.c=false; r.v=a.v*b.v; for(int i=0;i<JN();++i) r.g[i]= a.c? a.v*b.g[i] : b.c? b.v*a.g[i] : a.g[i]*b.v+b.g[i]*a.v; return r; }
inline J operator+(J const& a,double b){ J r=a; r.v=a.v+E(b); return r; }
inline J operator*(double s,J const& a){ return J(s)*a; }
// apply a scalar function with value f, first derivative d1 (with error)
inline J chain(J const& a,E f,E d1){ J r; r.v=f; r.c=a.c; if(!a.c) for(int i=0;i<JN();++i) r.g[i]=a.g[i]*d1; return r; }
// scalar types used by the templated evaluators
inline E konst(E const&,double x){ return E(x); }
inline J konst(J const&,double x){ return J(x); }
inline double val(E const& a){ return a.v; }
inline double val(J const& a){ return a.v.v; }
inline E expE(E x){ double f=std::exp(x.v); double e= x.e>1? INF : f*(x.e*2+2*EPS); return fin(f,e); }
inline J expT(J const& x){ E f=expE(x.v); return chain(x,f,f); }
inline E expT(E const& x){ return expE(x); }
inline E logE(E x){ if(!(x.v>0)) return E(std::log(x.v),INF); double e= x.e>0.3*x.v? INF : 1.5*x.e/x.v; return fin(std::log(x.v), e+EPS); }
inline J logT(J const& x){ J r=chain(x,logE(x.v),inv(x.v)); if(!(r.v.e<INF)){ r.c=false; for(int i=0;i<JN();++i) r.g[i]=E(0,INF); } return r; }  // a derivative that may have underflowed decides nothing
inline E logT(E const& x){ return logE(x); }

// ---------------------------------------------------------------- univariate bases
// fills val, d1, d2 for orders 0..n
enum Fam { PROB, PHYS, HFUN };
template<class T> struct Uni { std::vector<T> p,d,dd; };

template<class T> void polyBase(Fam fam,bool norm,int n,T const& x,Uni<T>& u){
  std::vector<T> h(n+4); // h up to order n+1 needed for Hermite functions
  u.p.assign(n+1,konst(x,0)); u.d=u.p; u.dd=u.p;
  if(fam==PROB||fam==PHYS){
    double a= fam==PHYS?2.0:1.0;
    h[0]=konst(x,1); h[1]=a*x;
    for(int k=2;k<=n;++k) h[k]=a*(x*h[k-1])-(a*(k-1))*h[k-2];
    for(int k=0;k<=n;++k){
      T v=h[k], d= k>=1? (a*k)*h[k-1] : konst(x,0), dd= k>=2? (a*a*k*(k-1.0))*h[k-2] : konst(x,0);
      if(norm){ double s=std::sqrt(std::sqrt(fam==PHYS? M_PI : 2*M_PI)); double lg=std::lgamma(k+1.0); 
        // squared norm: sqrt(2 pi) k!  or  sqrt(pi) 2^k k!
        double nrm=s; for(int j=1;j<=k;++j) nrm*=std::sqrt(fam==PHYS? 2.0*j : double(j)); (void)lg;
        E sc(1.0/nrm, 3*EPS*(k+3)/nrm); T c=konst(x,0); c=T(sc); v=c*v; d=c*d; dd=c*dd; }
      u.p[k]=v; u.d[k]=d; u.dd[k]=dd;
    }
  } else {
    // order 0: 1, order 1: x, order k: orthonormal Hermite function of order k-2
    int m=n; // need psi up to (n-2)+1
    std::vector<T> psi(m+2,konst(x,0));
    E c0(std::pow(M_PI,-0.25), 4*EPS);
    psi[0]=T(c0)*expT((-0.5)*(x*x));
    if(m>=1) psi[1]=std::sqrt(2.0)*(x*psi[0]);
    for(int k=2;k<=m;++k) psi[k]=T(E(std::sqrt(2.0/k),4*EPS))*(x*psi[k-1])-T(E(std::sqrt((k-1.0)/k),4*EPS))*psi[k-2];
    for(int k=0;k<=n;++k){
      if(k==0){ u.p[k]=konst(x,1); }
      else if(k==1){ u.p[k]=x; u.d[k]=konst(x,1); }
      else { int q=k-2; u.p[k]=psi[q];
        T down= q>=1? T(E(std::sqrt(0.5*q),4*EPS))*psi[q-1] : konst(x,0);
        u.d[k]= down - T(E(std::sqrt(0.5*(q+1)),4*EPS))*psi[q+1];
        u.dd[k]= (x*x-konst(x,2.0*q+1.0))*psi[q]; }
    }
  }
}
struct Basis { Fam fam=PROB; bool norm=true; bool lin=false; double lb=-INF, ub=INF; };
template<class T> void evalBasis(Basis const& b,int n,T const& x,Uni<T>& u){
  double xv=val(x);
  if(b.lin && (xv<b.lb || xv>b.ub)){
    double bd = xv<b.lb? b.lb : b.ub;
    Uni<T> w; polyBase(b.fam,b.norm,n,konst(x,bd),w);
    u.p.assign(n+1,konst(x,0)); u.d=u.p; u.dd=u.p;
    for(int k=0;k<=n;++k){ u.p[k]=w.p[k]+w.d[k]*(x-konst(x,bd)); u.d[k]=w.d[k]; }
  } else polyBase(b.fam,b.norm,n,x,u);
}

// ---------------------------------------------------------------- rectifiers
enum Rect { SOFTPLUS, EXPR };
struct RectVal { E g,d1,d2; };
inline RectVal rect(Rect r,E x){
  RectVal o;
  if(r==EXPR){ o.g=o.d1=o.d2=expE(x); return o; }
  double ex=std::exp(-std::fabs(x.v));
  double g=std::log1p(ex)+std::fmax(x.v,0), d1= x.v>=0? 1/(1+ex) : ex/(1+ex), d2=ex/((1+ex)*(1+ex));
  double big= x.e>1? INF : 1.0;
  // 1+exp(x) is rounded before the logarithm is taken: absolute error of one unit roundoff
  o.g=fin(g, big*2*x.e*d1+2*EPS); o.d1=fin(d1, big*2*x.e*d2+4*EPS*d1); o.d2=fin(d2, big*2*x.e*d2+8*EPS*d2);
  return o;
}
inline J rectJ(Rect r,J const& x){ RectVal v=rect(r,x.v); return chain(x,v.g,v.d1); }
inline J rectDJ(Rect r,J const& x){ RectVal v=rect(r,x.v); return chain(x,v.d1,v.d2); }

// ---------------------------------------------------------------- expansions
typedef std::vector<std::vector<unsigned>> Multis;
struct Expansion {
  Basis basis; Multis m; int dim=0; std::vector<int> maxdeg;
  void init(){ dim=m.empty()?0:int(m[0].size()); maxdeg.assign(dim,0); for(auto&t:m) for(int k=0;k<dim;++k) maxdeg[k]=std::max<int>(maxdeg[k],t[k]); }
};
// products of the bases of the leading dim-1 inputs, one per term
inline std::vector<J> prefixProducts(Expansion const& f,std::vector<J> const& x){
  std::vector<Uni<J>> u(f.dim); for(int k=0;k+1<f.dim;++k) evalBasis(f.basis,f.maxdeg[k],x[k],u[k]);
  std::vector<J> out; out.reserve(f.m.size());
  for(auto&t:f.m){ J p(1.0); for(int k=0;k+1<f.dim;++k) if(t[k]>0) p=p*u[k].p[t[k]]; out.push_back(p); }
  return out;
}
struct Lines { J f,df,ddf; };
inline Lines line(Expansion const& f,std::vector<J> const& pre,J const* c,J const& xd,bool needF,bool need1,bool need2){
  Uni<J> u; evalBasis(f.basis,f.maxdeg[f.dim-1],xd,u); Lines o;
  // collect by last order to save work
  int n=f.maxdeg[f.dim-1]; std::vector<J> s(n+1,J(0.0)); for(size_t i=0;i<f.m.size();++i){ int q=f.m[i][f.dim-1]; s[q]=s[q]+pre[i]*c[i]; }
  for(int q=0;q<=n;++q){ if(needF) o.f= q==0? o.f+s[q] : o.f+s[q]*u.p[q]; // a factor of degree zero is the constant 1
    if(q>0){ if(need1) o.df=o.df+s[q]*u.d[q]; if(need2) o.ddf=o.ddf+s[q]*u.dd[q]; } }
  return o;
}
// full expansion value
inline J expansionValue(Expansion const& f,J const* c,std::vector<J> const& x){ auto p=prefixProducts(f,x); return line(f,p,c,x[f.dim-1],true,false,false).f; }

// ---------------------------------------------------------------- quadrature of the monotone integrand
struct QuadSpec { int type=0; /*0 CC,1 adaptive Simpson,2 adaptive CC*/ unsigned pts=5,maxSub=30,minSub=0; double abs=1e-6,rel=1e-6; };

inline void ccRule(int n,std::vector<double>& x,std::vector<double>& w){ // on [0,1]
  x.resize(n); w.resize(n); if(n==1){ x[0]=0.5; w[0]=1; return; }
  int N=n-1; long double pi=3.14159265358979323846264338327950288L;
  for(int k=0;k<n;++k){
    long double th=pi*k/N; x[k]=double(0.5L*(1-cosl(th)));
    long double s=1; for(int j=1;j<=N/2;++j){ long double b=(2*j==N)?1:2; s-= b/(4.0L*j*j-1)*cosl(2*j*th); }
    long double c=(k==0||k==N)?1:2; w[k]=double(0.5L*c/N*s);
  }
}
// integrates fn(t) -> vector of J (K of them) over [0,1]; results keep derivative and error information.
// Adaptive rules use the library's own rule object, steered by the value of component 0, so that the nodes are
// those that the library chooses for the same integrand.
inline std::vector<J> integrate(QuadSpec const& q,int K,std::function<void(double,J const&,std::vector<J>&)> const& fn,long* evals=nullptr){
  std::vector<J> tmp(K), out(K,J(0.0));
  if(q.type==0){
    std::vector<double> x,w; ccRule(q.pts,x,w);
    for(size_t i=0;i<x.size();++i){ if(evals) ++*evals; fn(x[i],J(E(x[i],4*EPS)),tmp); J wi(E(w[i],16*EPS)); for(int k=0;k<K;++k) out[k]=out[k]+wi*tmp[k]; }
    return out;
  }
  int n=JN(), per=2*(n+1); int dim=K*per;
  auto f=[&](double t,double* o){ if(evals) ++*evals; fn(t,J(E(t,EPS)),tmp);
    for(int k=0;k<K;++k){ double* p=o+k*per; p[0]=tmp[k].v.v; p[1]=tmp[k].v.e+8*EPS*std::fabs(tmp[k].v.v); for(int i=0;i<n;++i){ E g=tmp[k].d(i); p[2+2*i]=g.v; p[3+2*i]=g.e+8*EPS*std::fabs(g.v);} } };
  std::vector<double> res(dim,0.0);
  if(q.type==1){ std::vector<double> work(mpart::AdaptiveSimpson<Kokkos::HostSpace>::GetWorkspaceSize(q.maxSub,dim)+8);
    mpart::AdaptiveSimpson<Kokkos::HostSpace> r(q.maxSub,dim,work.data(),q.abs,q.rel,mpart::QuadError::First,q.minSub);
    r.Integrate(work.data(),f,0,1,res.data());
  } else { std::vector<double> work(mpart::AdaptiveClenshawCurtis<Kokkos::HostSpace>::GetWorkspaceSize(q.maxSub,dim)+8);
    unsigned level=unsigned(std::log2(double(q.pts-2)));
    mpart::AdaptiveClenshawCurtis<Kokkos::HostSpace> r(level,q.maxSub,dim,work.data(),q.abs,q.rel,mpart::QuadError::First,q.minSub);
    r.Integrate(work.data(),f,0,1,res.data()); }
  for(int k=0;k<K;++k){ double* p=res.data()+k*per; out[k].c=(n==0); out[k].v=E(p[0],std::fabs(p[1])); for(int i=0;i<n;++i) out[k].g[i]=E(p[2+2*i],std::fabs(p[3+2*i])); }
  return out;
}
// composite Gauss-Legendre, independent of the library, plain values: used for the definition of the integral
inline double gauss(std::function<double(double)> const& f,double a,double b,int panels){
  static const double X[8]={-0.96028985649753623,-0.79666647741362674,-0.52553240991632899,-0.18343464249564980,0.18343464249564980,0.52553240991632899,0.79666647741362674,0.96028985649753623};
  static const double W[8]={0.10122853629037626,0.22238103445337447,0.31370664587788729,0.36268378337836198,0.36268378337836198,0.31370664587788729,0.22238103445337447,0.10122853629037626};
  double s=0; for(int p=0;p<panels;++p){ double l=a+(b-a)*p/panels, r=a+(b-a)*(p+1)/panels; for(int i=0;i<8;++i) s+=0.5*(r-l)*W[i]*f(0.5*(l+r)+0.5*(r-l)*X[i]); }
  return s;
}

// ---------------------------------------------------------------- map nodes
struct Node {
  int inDim=0,outDim=0,nc=0;
  virtual ~Node(){}
  virtual std::string kind() const =0;
  virtual void eval(std::vector<J> const& x,J const* c,std::vector<J>& y) const =0;
  virtual J logdet(std::vector<J> const& x,J const* c) const =0;
  virtual bool hasLogdetInputGrad() const { return true; }
};
typedef std::shared_ptr<Node> NodeP;

// what evaluating the reference cost: largest rectifier argument met and number of integrand evaluations
struct Cost { double maxdf=0, maxexp=0; long evals=0; };
inline Cost& cost(){ static thread_local Cost c; return c; }
struct Comp: Node {
  Expansion f; Rect r=SOFTPLUS; QuadSpec q; bool contDeriv=true; double nugget=0;
  std::string kind() const override { return "component"; }
  J integral(std::vector<J> const& pre,J const* c,J const& xd,bool disc,long* ev=nullptr) const {
    auto fn=[&](double,J const& t,std::vector<J>& o){
      J xt=t*xd; Lines l=line(f,pre,c,xt,false,true,disc); Cost& co=cost(); ++co.evals; double ad=std::fabs(l.df.v.v); if(!(ad<=co.maxdf)) co.maxdf=ad; if(r==EXPR&&!(l.df.v.v<=co.maxexp)) co.maxexp=l.df.v.v; J g=rectJ(r,l.df)+nugget; o[0]=xd*g; if(disc) o[1]=g+(xd*t)*(rectDJ(r,l.df)*l.ddf); };
    auto v=integrate(q,disc?2:1,fn,ev); return disc? v[1]:v[0];
  }
  void eval(std::vector<J> const& x,J const* c,std::vector<J>& y) const override {
    auto pre=prefixProducts(f,x); J f0=line(f,pre,c,J(0.0),true,false,false).f; y.assign(1,f0+integral(pre,c,x[f.dim-1],false));
  }
  J contDer(std::vector<J> const& x,J const* c) const { auto pre=prefixProducts(f,x); { Cost& co=cost(); double ad=line(f,pre,c,x[f.dim-1],false,true,false).df.v.v; if(!(std::fabs(ad)<=co.maxdf)) co.maxdf=std::fabs(ad); if(r==EXPR&&!(ad<=co.maxexp)) co.maxexp=ad; } return rectJ(r,line(f,pre,c,x[f.dim-1],false,true,false).df)+nugget; }
  J discDer(std::vector<J> const& x,J const* c) const { auto pre=prefixProducts(f,x); return integral(pre,c,x[f.dim-1],true); }
  J logdet(std::vector<J> const& x,J const* c) const override { return logT(contDeriv? contDer(x,c) : discDer(x,c)); }
  bool hasLogdetInputGrad() const override { return contDeriv; }
  // mathematical definition with an independent quadrature; argument values only
  double exact(std::vector<double> const& x,std::vector<double> const& c,double& scale) const {
    int sv=JN(); JN()=0; std::vector<J> xj(x.begin(),x.end()), cj(c.begin(),c.end()); auto pre=prefixProducts(f,xj);
    double f0=line(f,pre,cj.data(),J(0.0),true,false,false).f.v.v; double xd=x.back();
    auto g=[&](double s){ return rect(r,line(f,pre,cj.data(),J(s),false,true,false).df.v).g.v+nugget; };
    std::vector<double> br{0.0,xd}; if(f.basis.lin) for(double b: {f.basis.lb,f.basis.ub}) if(b>std::min(0.0,xd)&&b<std::max(0.0,xd)) br.push_back(b);
    std::sort(br.begin(),br.end()); double s=0; for(size_t i=0;i+1<br.size();++i){ int p=40+int(40*std::fabs(br[i+1]-br[i])); s+=gauss(g,br[i],br[i+1],std::min(p,400)); }
    if(xd<0) s=-s; scale=std::fabs(f0)+std::fabs(s); JN()=sv; return f0+s;
  }
};
struct Tri: Node {
  std::vector<NodeP> b;
  std::string kind() const override { return "triangular"; }
  void eval(std::vector<J> const& x,J const* c,std::vector<J>& y) const override { y.clear(); for(auto&n:b){ std::vector<J> xs(x.begin(),x.begin()+n->inDim),t; n->eval(xs,c,t); y.insert(y.end(),t.begin(),t.end()); c+=n->nc; } }
  J logdet(std::vector<J> const& x,J const* c) const override { J s(0.0); for(auto&n:b){ std::vector<J> xs(x.begin(),x.begin()+n->inDim); s=s+n->logdet(xs,c); c+=n->nc; } return s; }
  bool hasLogdetInputGrad() const override { for(auto&n:b) if(!n->hasLogdetInputGrad()) return false; return true; }
};
struct Compos: Node {
  std::vector<NodeP> b; int checks=0;
  std::string kind() const override { return "composed"; }
  void eval(std::vector<J> const& x,J const* c,std::vector<J>& y) const override { std::vector<J> t=x; for(auto&n:b){ std::vector<J> u; n->eval(t,c,u); t=u; c+=n->nc; } y=t; }
  J logdet(std::vector<J> const& x,J const* c) const override { J s(0.0); std::vector<J> t=x; for(auto&n:b){ s=s+n->logdet(t,c); std::vector<J> u; n->eval(t,c,u); t=u; c+=n->nc; } return s; }
  bool hasLogdetInputGrad() const override { for(auto&n:b) if(!n->hasLogdetInputGrad()) return false; return true; }
};
struct Aff: Node {   // rows x cols; hasA / hasB
  std::vector<std::vector<double>> A; std::vector<double> bb; bool hasA=true,hasB=true;
  std::string kind() const override { return "affine"; }
  void eval(std::vector<J> const& x,J const*,std::vector<J>& y) const override {
    y.assign(outDim,J(0.0)); for(int i=0;i<outDim;++i){ if(hasA){ for(int k=0;k<inDim;++k) y[i]=y[i]+A[i][k]*x[k]; } else y[i]=x[i+inDim-outDim]; if(hasB) y[i]=y[i]+J(bb[i]); } }
  J logdet(std::vector<J> const&,J const*) const override {
    if(!hasA) return J(0.0); int n=outDim; std::vector<std::vector<long double>> M(n,std::vector<long double>(n)); for(int i=0;i<n;++i) for(int k=0;k<n;++k) M[i][k]=A[i][k+inDim-outDim];
    long double l=0; for(int p=0;p<n;++p){ int q=p; for(int i=p;i<n;++i) if(fabsl(M[i][p])>fabsl(M[q][p])) q=i; std::swap(M[p],M[q]); l+=logl(fabsl(M[p][p])); for(int i=p+1;i<n;++i){ long double m=M[i][p]/M[p][p]; for(int k=p;k<n;++k) M[i][k]-=m*M[p][k]; } }
    return J(E(double(l),1e-14*n*n)); }
};
struct Ident: Node {
  std::string kind() const override { return "identity"; }
  void eval(std::vector<J> const& x,J const*,std::vector<J>& y) const override { y.assign(x.begin()+(inDim-outDim),x.end()); }
  J logdet(std::vector<J> const&,J const*) const override { return J(0.0); }
};
// summary function: affine or expansion with its own fixed coefficients
struct Summary { int in=0,out=0; std::shared_ptr<Aff> aff; std::shared_ptr<Expansion> ex; std::vector<double> exc; NodeP map; std::vector<double> mapc; };
struct Summ: Node {
  Summary s; NodeP comp;
  std::string kind() const override { return "summarized"; }
  std::vector<J> summarize(std::vector<J> const& x) const { std::vector<J> xs(x.begin(),x.begin()+s.in),y; 
    if(s.aff) s.aff->eval(xs,nullptr,y);
    else if(s.ex){ int T=s.ex->m.size(); for(int o=0;o<s.out;++o){ std::vector<J> c; for(int t=0;t<T;++t) c.push_back(J(s.exc[o*T+t])); y.push_back(expansionValue(*s.ex,c.data(),xs)); } }
    else { std::vector<J> c(s.mapc.begin(),s.mapc.end()); s.map->eval(xs,c.data(),y); }
    y.push_back(x.back()); return y; }
  void eval(std::vector<J> const& x,J const* c,std::vector<J>& y) const override { comp->eval(summarize(x),c,y); }
  J logdet(std::vector<J> const& x,J const* c) const override { return comp->logdet(summarize(x),c); }
  bool hasLogdetInputGrad() const override { return comp->hasLogdetInputGrad(); }
};

// ---------------------------------------------------------------- comparison
struct Cmp { long skipped=0, done=0; };
// true if consistent; sets skipped when the reference itself is too ill conditioned to judge
inline bool close(double lib,E r,Cmp& c,double C=64,double extraAbs=0){
  if(!std::isfinite(r.v) || !(r.e<=1e-4*std::max(1.0,std::fabs(r.v))) || std::fabs(r.v)>1e280){ ++c.skipped; return true; }
  ++c.done; double tol=C*r.e+extraAbs+1e-290; return std::fabs(lib-r.v)<=tol;
}
inline std::string show(double lib,E r){ return "got "+vh::num(lib)+" expected "+vh::num(r.v)+" (error bound "+vh::num(r.e)+")"; }
} // namespace ref
