// C21: linear algebra helpers and array conversions against long double references and position-by-position copies.
#include "vh.h"
#include "arr.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include "MParT/Utilities/ArrayConversions.h"
using namespace mpart; using namespace vh; using namespace arr;
typedef Kokkos::LayoutLeft LL; typedef Kokkos::LayoutRight LR; typedef Kokkos::LayoutStride LS;
typedef long double ld;
static const double EPS=2.3e-16;
struct DM { int r=0,c=0; std::vector<double> v; DM(){} DM(int a,int b):r(a),c(b),v(size_t(a)*b){} double& operator()(int i,int j){return v[size_t(i)*c+j];} double operator()(int i,int j) const {return v[size_t(i)*c+j];} };
static double val(Rng& g,int mode){ switch(mode){ case 0: return g.n(); case 1: return g.i(-3,3); case 2: return g.n()*std::pow(10.0,g.i(-8,8)); default: return g.b(.3)?0.0:g.n(); } }
static DM rnd(Rng& g,int r,int c,int mode){ DM m(r,c); for(auto& x:m.v) x=val(g,mode); return m; }
static DM tr(DM const& a){ DM t(a.c,a.r); for(int i=0;i<a.r;++i) for(int j=0;j<a.c;++j) t(j,i)=a(i,j); return t; }
static Arr toArr(DM const& m,int kind){ Arr a(m.r,m.c,kind); for(int i=0;i<m.r;++i) for(int j=0;j<m.c;++j) a.at(i,j)=m(i,j); return a; }
// reference product with an error bound for each entry
static void prod(double al,DM const& A,DM const& B,double be,DM const& C0,DM& ref,DM& tol){
  ref=DM(A.r,B.c); tol=DM(A.r,B.c);
  for(int i=0;i<A.r;++i) for(int j=0;j<B.c;++j){ ld s=0,m=0; for(int k=0;k<A.c;++k){ ld p=ld(A(i,k))*B(k,j); s+=p; m+=std::fabs(p); }
    ld r=al*s,t=std::fabs(al)*m; if(be!=0){ r+=ld(be)*C0(i,j); t+=std::fabs(ld(be)*C0(i,j)); }
    ref(i,j)=double(r); tol(i,j)=double(t)*EPS*(A.c+6)*2+1e-300; } }
template<class V> static void cmp(Ctx& c,V const& got,DM const& ref,DM const& tol,const char* key,std::string const& w){
  if(!c.check(int(got.extent(0))==ref.r&&int(got.extent(1))==ref.c,key,[&]{return w+": result has the wrong shape";})) return;
  for(int i=0;i<ref.r;++i) for(int j=0;j<ref.c;++j){ double g=got(i,j); if(!c.check(std::fabs(g-ref(i,j))<=tol(i,j),key,[&]{return vh::S()<<w<<": entry ("<<i<<","<<j<<") is "<<g<<" expected "<<ref(i,j)<<" (tolerance "<<tol(i,j)<<")";})) return; } }
static int dim(Rng& g){ return g.b(.05)?g.i(8,45):g.b(.06)?0:g.i(1,7); }
static double scal(Rng& g){ switch(g.i(0,4)){ case 0: return 0; case 1: return 1; case 2: return -1; default: return g.n()*2; } }

// a matrix living in a kokkos view of a chosen layout, possibly a window of a larger one
template<class L> struct KV { Kokkos::View<double**,L,HS> big, v; int o0=0,o1=0; 
  KV(DM const& m,bool win,Rng& g){ int p0=win?g.i(0,2):0,p1=win?g.i(0,2):0; o0=win?g.i(0,2):0; o1=win?g.i(0,2):0; big=Kokkos::View<double**,L,HS>("big",m.r+p0+o0,m.c+p1+o1); Kokkos::deep_copy(big,PAD);
    v=Kokkos::subview(big,std::make_pair(o0,o0+m.r),std::make_pair(o1,o1+m.c)); for(int i=0;i<m.r;++i) for(int j=0;j<m.c;++j) v(i,j)=m(i,j); }
  bool pads() const { for(int i=0;i<int(big.extent(0));++i) for(int j=0;j<int(big.extent(1));++j) if(!(i>=o0&&i<o0+int(v.extent(0))&&j>=o1&&j<o1+int(v.extent(1)))&&big(i,j)!=PAD) return false; return true; }
  bool same(DM const& m) const { for(int i=0;i<m.r;++i) for(int j=0;j<m.c;++j) if(!sameBits(v(i,j),m(i,j))) return false; return pads(); }
};
static bool same(Arr const& a,DM const& m){ for(int i=0;i<m.r;++i) for(int j=0;j<m.c;++j) if(!sameBits(a.at(i,j),m(i,j))) return false; return a.padsIntact(); }

static void tGemm(Ctx& c){ Rng& g=c.rng; int m=dim(g),k=dim(g),n=dim(g); int mode=g.i(0,3); double al=scal(g),be=scal(g); bool ta=g.b(),tb=g.b(); int ka=g.i(0,5),kb=g.i(0,5),kc=g.i(0,5);
  DM A=rnd(g,m,k,mode),B=rnd(g,k,n,mode),C0=rnd(g,m,n,g.i(0,3)); bool poison=be==0&&g.b(); if(poison) for(auto& x:C0.v) if(g.b()) x=g.b()?NAN:INFINITY;
  Arr a=toArr(ta?tr(A):A,ka),b=toArr(tb?tr(B):B,kb),cc=toArr(C0,kc); DM ref,tol; prod(al,A,B,be,C0,ref,tol);
  std::string w=vh::S()<<"dgemm m="<<m<<" k="<<k<<" n="<<n<<" alpha="<<al<<" beta="<<be<<" ta="<<ta<<" tb="<<tb<<" layouts "<<ka<<kb<<kc; c.describe(w);
  auto ra=a.raw(),rb=b.raw(); TransposeObject<HS> oa(a.c(),ta),ob(b.c(),tb); int how=g.i(0,3);
  if(how==1){ if(ta) oa=transpose(a.c()); if(tb) ob=transpose(transpose(transpose(b.c()))); }
  c.check(oa.rows()==m&&oa.cols()==k&&ob.rows()==k&&ob.cols()==n,"gemm-shape",[&]{return w+": rows()/cols() of a transpose object are wrong";});
  if(how==2&&!ta&&!tb) dgemm<HS>(al,a.m(),b.c(),be,cc.m()); else dgemm<HS>(al,oa,ob,be,cc.m());
  cmp(c,cc.m(),ref,tol,"gemm",w); c.check(a.raw()==ra&&b.raw()==rb&&cc.padsIntact(),"gemm-inputs",[&]{return w+": inputs or padding changed";});
  c.cover(vh::S()<<"gemm"<<m<<','<<k<<','<<n<<ta<<tb<<ka<<kb<<kc); c.count("products");
}
template<class LA,class LB> static void starT(Ctx& c){ Rng& g=c.rng; int m=dim(g),k=dim(g),n=dim(g),mode=g.i(0,3); bool ta=g.b(),tb=g.b(),cn=g.b(); DM A=rnd(g,m,k,mode),B=rnd(g,k,n,mode),A0=ta?tr(A):A,B0=tb?tr(B):B;
  KV<LA> a(A0,g.b(),g); KV<LB> b(B0,g.b(),g); DM ref,tol; prod(1,A,B,0,DM(m,n),ref,tol);
  std::string w=vh::S()<<"operator* m="<<m<<" k="<<k<<" n="<<n<<" ta="<<ta<<" tb="<<tb<<" const="<<cn; c.describe(w); StridedMatrix<double,HS> r;
  Kokkos::View<const double**,LA,HS> ac=a.v; Kokkos::View<const double**,LB,HS> bc=b.v;
  if(ta&&tb) r= cn? transpose(ac)*transpose(b.v) : transpose(a.v)*transpose(bc); else if(ta) r= cn? transpose(ac)*b.v : transpose(transpose(transpose(a.v)))*bc; else if(tb) r= cn? ac*transpose(bc) : a.v*transpose(b.v);
  else if(cn) r=ac*bc; else r=g.b()? a.v*b.v : a.v*transpose(transpose(b.v));
  cmp(c,r,ref,tol,"star",w); c.check(a.same(A0)&&b.same(B0),"star-inputs",[&]{return w+": inputs or padding changed";}); c.cover(vh::S()<<"star"<<m<<','<<k<<','<<n<<ta<<tb<<cn<<typeid(LA).name()<<typeid(LB).name()); c.count("products"); }
static void tStar(Ctx& c){ switch(c.rng.i(0,4)){ case 0: starT<LL,LL>(c); break; case 1: starT<LR,LR>(c); break; case 2: starT<LL,LR>(c); break; case 3: starT<LR,LL>(c); break; default: starT<LR,LL>(c); } }

static void tAdd(Ctx& c){ Rng& g=c.rng; int m=dim(g),n=dim(g),mode=g.i(0,3); bool two=g.b(); if(!two) n=m,m=1; DM X=rnd(g,m,n,mode),Y=rnd(g,m,n,mode),S(m,n); for(size_t i=0;i<S.v.size();++i) S.v[i]=X.v[i]+Y.v[i]; DM z(m,n);
  int how=g.i(0,5),kx=g.i(0,5),ky=g.i(0,5); std::string w=vh::S()<<"add "<<(two?"2-D ":"1-D ")<<m<<"x"<<n<<" how="<<how<<" layouts "<<kx<<ky; c.describe(w);
  c.cover(vh::S()<<"add"<<two<<m<<','<<n<<how<<kx<<ky); c.count("additions");
  auto chk1=[&](auto v){ if(!c.check(int(v.extent(0))==n,"add",[&]{return w+": wrong length";})) return; for(int i=0;i<n;++i) if(!c.check(sameBits(v(i),S.v[i]),"add",[&]{return vh::S()<<w<<": entry "<<i<<" is "<<v(i)<<" expected "<<S.v[i];})) return; };
  auto chk2=[&](auto v){ if(!c.check(int(v.extent(0))==m&&int(v.extent(1))==n,"add",[&]{return w+": wrong shape";})) return; for(int i=0;i<m;++i) for(int j=0;j<n;++j) if(!c.check(sameBits(v(i,j),S(i,j)),"add",[&]{return vh::S()<<w<<": entry "<<i<<","<<j<<" is "<<v(i,j)<<" expected "<<S(i,j);})) return; };
  auto un=[&](bool ok){ c.check(ok,"add-inputs",[&]{return w+": an operand or padding changed";}); };
  Arr x=toArr(X,kx),y=toArr(Y,ky);
  if(two) switch(how){
    case 0: { AddInPlace(x.m(),y.c()); chk2(x.m()); un(x.padsIntact()&&same(y,Y)); break; }
    case 1: { auto xm=x.m(); auto ym=y.m(); auto& r=(xm+=ym); chk2(x.m()); chk2(r); un(x.padsIntact()&&same(y,Y)); break; }
    case 2: { KV<LR> a(X,g.b(),g),b(Y,g.b(),g); auto r=(Kokkos::View<const double**,LR,HS>(a.v)+Kokkos::View<const double**,LR,HS>(b.v)); chk2(r); un(a.same(X)&&b.same(Y)); c.check(r.size()==0||(r.data()!=a.v.data()&&r.data()!=b.v.data()),"add-alias",[&]{return w+": the sum aliases an operand";}); break; }
    case 3: { Kokkos::View<double**,HS> a("a",m,n),b("b",m,n); for(int i=0;i<m;++i) for(int j=0;j<n;++j){ a(i,j)=X(i,j); b(i,j)=Y(i,j);} auto r=a+b; chk2(r); bool ok=true; for(int i=0;i<m;++i) for(int j=0;j<n;++j) ok=ok&&sameBits(a(i,j),X(i,j))&&sameBits(b(i,j),Y(i,j)); un(ok); break; }
    case 4: { KV<LL> a(X,g.b(),g); AddInPlace(a.v,y.c()); chk2(a.v); un(a.pads()&&same(y,Y)); break; }
    default: { auto r=(x.c()+y.c()); chk2(r); un(same(x,X)&&same(y,Y)); } }
  else switch(how){
    case 0: { AddInPlace(x.rowv(),y.crowv()); chk1(x.rowv()); un(x.padsIntact()&&same(y,Y)); break; }
    case 1: { auto xm=x.rowv(); auto ym=y.rowv(); auto& r=(xm+=ym); chk1(x.rowv()); chk1(r); un(x.padsIntact()&&same(y,Y)); break; }
    case 2: { auto r=(x.crowv()+y.crowv()); chk1(r); un(same(x,X)&&same(y,Y)); break; }
    case 3: { Kokkos::View<double*,HS> a("a",n),b("b",n); for(int i=0;i<n;++i){ a(i)=X.v[i]; b(i)=Y.v[i]; } auto r=a+b; chk1(r); bool ok=true; for(int i=0;i<n;++i) ok=ok&&sameBits(a(i),X.v[i])&&sameBits(b(i),Y.v[i]); un(ok); break; }
    case 4: { auto r=(x.rowv()+y.rowv()); chk1(r); un(same(x,X)&&same(y,Y)); break; }
    default: { Kokkos::View<double*,HS> a("a",n); for(int i=0;i<n;++i) a(i)=X.v[i]; Kokkos::View<const double*,LS,HS> yv=y.crowv(); AddInPlace(a,yv); chk1(a); un(same(y,Y)); } }
}
template<ReduceDimMap M,unsigned D> static void redT(Ctx& c){ Rng& g=c.rng; int m=dim(g),n=dim(g),mode=g.i(0,3),ka=g.i(0,5); if(g.b(.05)) m=g.i(50,400); double al=scal(g); DM A=rnd(g,m,n,mode); Arr a=toArr(A,ka);
  std::string w=vh::S()<<"ReduceDim "<<(M==ReduceDimMap::sum?"sum":"norm")<<" dim "<<D<<" of "<<m<<"x"<<n<<" alpha="<<al<<" layout "<<ka; c.describe(w);
  int keep=D==1?m:n,over=D==1?n:m; std::vector<double> out(keep,-5.5); ReduceDim<M,HS,D> rc(a.m(),al); Kokkos::parallel_reduce(over,rc,out.data());
  c.cover(vh::S()<<"red"<<int(M)<<D<<m<<','<<n<<ka); c.count("reductions");
  if(keep==0) return;
  for(int i=0;i<keep;++i){ ld s=0,t=0; for(int j=0;j<over;++j){ ld x=D==1?A(i,j):A(j,i); if(M==ReduceDimMap::norm) x*=x; x*=al; s+=x; t+=std::fabs(x); } double tol=double(t)*EPS*(over+4)*2+1e-300;
    if(!c.check(std::fabs(out[i]-double(s))<=tol,"reduce",[&]{return vh::S()<<w<<": entry "<<i<<" is "<<out[i]<<" expected "<<double(s);})) return; }
  c.check(same(a,A),"reduce-inputs",[&]{return w+": the matrix or its padding changed";}); }
static void tRed(Ctx& c){ switch(c.rng.i(0,3)){ case 0: redT<ReduceDimMap::sum,0>(c); break; case 1: redT<ReduceDimMap::sum,1>(c); break; case 2: redT<ReduceDimMap::norm,0>(c); break; default: redT<ReduceDimMap::norm,1>(c); } }

static ld detRef(DM A){ int n=A.r; std::vector<ld> a(A.v.begin(),A.v.end()); ld d=1; for(int k=0;k<n;++k){ int p=k; for(int i=k+1;i<n;++i) if(std::fabs(a[i*n+k])>std::fabs(a[p*n+k])) p=i; if(a[p*n+k]==0) return 0; if(p!=k){ for(int j=0;j<n;++j) std::swap(a[p*n+j],a[k*n+j]); d=-d; } d*=a[k*n+k]; for(int i=k+1;i<n;++i){ ld f=a[i*n+k]/a[k*n+k]; for(int j=k;j<n;++j) a[i*n+j]-=f*a[k*n+j]; } } return d; }
static double normInf(DM const& A){ double m=0; for(int i=0;i<A.r;++i){ double s=0; for(int j=0;j<A.c;++j) s+=std::fabs(A(i,j)); m=std::max(m,s);} return m; }
static double condInf(DM A){ int n=A.r; std::vector<ld> a(A.v.begin(),A.v.end()),b(size_t(n)*n,0); for(int i=0;i<n;++i) b[i*n+i]=1; for(int k=0;k<n;++k){ int p=k; for(int i=k+1;i<n;++i) if(std::fabs(a[i*n+k])>std::fabs(a[p*n+k])) p=i; if(a[p*n+k]==0) return INFINITY; for(int j=0;j<n;++j){ std::swap(a[p*n+j],a[k*n+j]); std::swap(b[p*n+j],b[k*n+j]); } ld q=a[k*n+k]; for(int j=0;j<n;++j){ a[k*n+j]/=q; b[k*n+j]/=q; } for(int i=0;i<n;++i) if(i!=k){ ld f=a[i*n+k]; for(int j=0;j<n;++j){ a[i*n+j]-=f*a[k*n+j]; b[i*n+j]-=f*b[k*n+j]; } } }
  DM B(n,n); for(int i=0;i<n*n;++i) B.v[i]=double(b[i]); return normInf(A)*normInf(B); }
// residual check: |A x - b| small relative to |A||x|+|b|
template<class V> static void solved(Ctx& c,DM const& A,V const& x,DM const& B,const char* key,std::string const& w){ int n=A.r; if(!c.check(int(x.extent(0))==n&&int(x.extent(1))==B.c,key,[&]{return w+": solution has the wrong shape";})) return;
  double na=normInf(A); for(int j=0;j<B.c;++j){ double nx=0,nb=0; for(int i=0;i<n;++i){ nx=std::max(nx,std::fabs(double(x(i,j)))); nb=std::max(nb,std::fabs(B(i,j))); }
    for(int i=0;i<n;++i){ ld r=-ld(B(i,j)); for(int k=0;k<n;++k) r+=ld(A(i,k))*x(k,j); double tol=EPS*50*(n+3)*(na*nx+nb)+1e-300; if(!c.check(std::fabs(double(r))<=tol,key,[&]{return vh::S()<<w<<": residual "<<double(r)<<" in row "<<i<<" of column "<<j<<" (tolerance "<<tol<<")";})) return; } } }
static DM sq(Rng& g,int n,bool spd){ DM A(n,n); int mode=g.i(0,3); if(spd){ DM L(n,n); for(int i=0;i<n;++i) for(int j=0;j<=i;++j) L(i,j)= i==j? (0.3+std::fabs(g.n()))*(g.b()?1:-1) : mode==1? g.i(-2,2):0.7*g.n(); for(int i=0;i<n;++i) for(int j=0;j<=i;++j){ double s=0; for(int k=0;k<n;++k) s+=L(i,k)*L(j,k); A(i,j)=A(j,i)=s; } }
  else if(mode==3){ std::vector<int> p(n); for(int i=0;i<n;++i) p[i]=i; for(int i=n-1;i>0;--i) std::swap(p[i],p[g.i(0,i)]); for(int i=0;i<n;++i) A(i,p[i])=(g.b()?1:-1)*(0.5+g.u()); if(n>1&&g.b()) A(g.i(0,n-1),g.i(0,n-1))+=g.n()*.1; }
  else for(auto& x:A.v) x=mode==1? g.i(-3,3): g.n()*(mode==2&&g.b(.2)?100:1); return A; }
template<class F> static void factT(Ctx& c,bool spd,const char* nm){ Rng& g=c.rng; F f; int rounds=g.i(1,3); bool ctor=false;
  for(int r=0;r<rounds;++r){ int n=g.b(.05)?g.i(8,30):g.i(1,7),nr=g.b(.1)?0:g.i(1,5); DM A=sq(g,n,spd); double cd=condInf(A); if(!(cd<1e10)) continue;
    DM B=rnd(g,n,nr,g.i(0,3)); KV<LL> a(A,g.b(),g); std::string w=vh::S()<<nm<<" n="<<n<<" rhs="<<nr<<" round "<<r<<" cond "<<cd; c.describe(w);
    if(r==0&&g.b()){ f=F(a.v); ctor=true; } else f.compute(a.v);
    c.check(a.same(A),"factor-inputs",[&]{return w+": factorizing changed the matrix";});
    // the factorization is a snapshot: later changes of the matrix do not matter
    if(g.b()) for(int i=0;i<n;++i) for(int j=0;j<n;++j) a.v(i,j)=g.n();
    int kb=g.i(0,5); for(int rep=0;rep<2;++rep){ Arr b=toArr(B,kb); auto x=f.solve(b.c()); solved(c,A,x,B,"solve",w); c.check(same(b,B),"solve-inputs",[&]{return w+": solve changed the right-hand side";});
      c.check(x.size()==0||x.data()!=b.c().data(),"solve-alias",[&]{return w+": the solution aliases the right-hand side";}); }
    KV<LL> y(B,g.b(),g); f.solveInPlace(y.v); solved(c,A,y.v,B,"solve-inplace",w); c.check(y.pads(),"solve-inputs",[&]{return w+": padding overwritten";});
    ld d=detRef(A); double got=f.determinant(),tol=double(std::fabs(d))*EPS*100*(n+3)*cd+1e-300; c.check(std::fabs(got-double(d))<=tol,"determinant",[&]{return vh::S()<<w<<": determinant "<<got<<" expected "<<double(d);});
    if constexpr(std::is_same<F,Cholesky<HS>>::value){ DM I(n,n); for(int i=0;i<n;++i) I(i,i)=1; KV<LL> e(I,g.b(),g); auto L=f.multiplyL(e.v); c.check(e.same(I),"factor-inputs",[&]{return w+": multiplyL changed its argument";});
      DM l(n,n); if(c.check(int(L.extent(0))==n&&int(L.extent(1))==n,"cholesky-L",[&]{return w+": L has the wrong shape";})){ for(int i=0;i<n;++i) for(int j=0;j<n;++j){ l(i,j)=L(i,j); c.check(j<=i||L(i,j)==0,"cholesky-L",[&]{return w+": L is not lower triangular";}); c.check(i!=j||L(i,i)>0,"cholesky-L",[&]{return w+": L has a non-positive diagonal entry";}); }
        DM R,T; prod(1,l,tr(l),0,DM(n,n),R,T); for(int i=0;i<n;++i) for(int j=0;j<n;++j) c.check(std::fabs(R(i,j)-A(i,j))<=20*(n+3)*EPS*std::sqrt(A(i,i)*A(j,j)),"cholesky-L",[&]{return vh::S()<<w<<": (L L^T)("<<i<<","<<j<<") = "<<R(i,j)<<" expected "<<A(i,j);});
        KV<LL> q(B,g.b(),g); auto p=f.multiplyL(q.v); DM R2,T2; prod(1,l,B,0,DM(n,nr),R2,T2); cmp(c,p,R2,T2,"multiplyL",w); c.check(q.same(B),"factor-inputs",[&]{return w+": multiplyL changed its argument";});
        KV<LL> s(B,g.b(),g); f.solveInPlaceL(s.v); solved(c,l,s.v,B,"solveL",w); c.check(s.pads(),"solve-inputs",[&]{return w+": padding overwritten";}); } }
    c.cover(vh::S()<<nm<<n<<','<<nr<<','<<r<<ctor<<kb); c.count("factorizations"); } }
static void tFact(Ctx& c){ if(c.rng.b()) factT<PartialPivLU<HS>>(c,false,"LU"); else factT<Cholesky<HS>>(c,true,"Cholesky"); }

// ---- conversions: f(view) must show m at every position; `p` is the address entry (i,j) must have (null: must be a copy)
template<class T,class V,class F,class P> static void pos(Ctx& c,V const& v,int r,int n,F f,P p,bool wrap,std::string const& w){
  if(!c.check(long(v.extent(0))==r&&long(v.extent(1))==n,"conv-shape",[&]{return w+": wrong shape";})) return;
  for(int i=0;i<r;++i) for(int j=0;j<n;++j){ if(!c.check(v(i,j)==f(i,j),"conv-values",[&]{return vh::S()<<w<<": entry ("<<i<<","<<j<<") is "<<v(i,j)<<" expected "<<f(i,j);})) return; if(!c.check((&v(i,j)==p(i,j))==wrap,"conv-alias",[&]{return w+(wrap?": does not alias the original":": aliases the original");})) return; } }
template<class T,class V,class F,class P> static void pos1(Ctx& c,V const& v,int n,F f,P p,bool wrap,std::string const& w){
  if(!c.check(long(v.extent(0))==n,"conv-shape",[&]{return w+": wrong length";})) return;
  for(int i=0;i<n;++i){ if(!c.check(v(i)==f(i),"conv-values",[&]{return vh::S()<<w<<": entry "<<i<<" is "<<v(i)<<" expected "<<f(i);})) return; if(!c.check((&v(i)==p(i))==wrap,"conv-alias",[&]{return w+(wrap?": does not alias the original":": aliases the original");})) return; } }
// the same for Eigen objects
template<class T,class V,class F,class P> static void posE(Ctx& c,V const& v,int r,int n,F f,P p,bool wrap,std::string const& w){
  if(!c.check(v.rows()==r&&v.cols()==n,"conv-shape",[&]{return w+": wrong shape";})) return;
  for(int i=0;i<r;++i) for(int j=0;j<n;++j){ if(!c.check(v.coeff(i,j)==f(i,j),"conv-values",[&]{return vh::S()<<w<<": entry ("<<i<<","<<j<<") is "<<v.coeff(i,j)<<" expected "<<f(i,j);})) return; if(!c.check((&v.coeffRef(i,j)==p(i,j))==wrap,"conv-alias",[&]{return w+(wrap?": does not alias the original":": aliases the original");})) return; } }
template<class T> static void convT(Ctx& c,const char* tn){ Rng& g=c.rng; int r=g.i(1,7),n=g.i(1,7); std::vector<T> v(size_t(r)*n); for(auto& x:v) x=T(g.i(0,100000)); auto v0=v; T* d=v.data(); int how=g.i(0,19);
  std::string w=vh::S()<<"conversion "<<how<<" of "<<tn<<" "<<r<<"x"<<n; c.describe(w); c.cover(vh::S()<<w); c.count("conversions");
  auto fr=[&](int i,int j){return v0[i*n+j];}; auto fl=[&](int i,int j){return v0[j*r+i];}; auto pr=[&](int i,int j){return d+i*n+j;}; auto pl=[&](int i,int j){return d+j*r+i;}; auto f1=[&](int i){return v0[i];}; auto p1=[&](int i){return d+i;}; int N=r*n;
  typedef Eigen::Matrix<T,-1,-1> EC; typedef Eigen::Matrix<T,-1,-1,Eigen::RowMajor> ER; typedef Eigen::Matrix<T,-1,1> EV;
  auto win=[&](int& R,int& C,int& i0,int& j0){ i0=g.i(0,r-1); j0=g.i(0,n-1); R=g.i(1,r-i0); C=g.i(1,n-j0); };
  int R,C,i0,j0; win(R,C,i0,j0); w=vh::S()<<w<<" window "<<i0<<","<<j0<<" "<<R<<"x"<<C;
  switch(how){
    case 0: { pos1<T>(c,ToKokkos<T>(d,N),N,f1,p1,true,w); pos1<T>(c,ToConstKokkos<T>(d,N),N,f1,p1,true,w); break; }
    case 1: { pos<T>(c,ToKokkos<T>(d,r,n),r,n,fl,pl,true,w); pos<T>(c,ToKokkos<T,LL>(d,r,n),r,n,fl,pl,true,w); pos<T>(c,ToKokkos<T,LR>(d,r,n),r,n,fr,pr,true,w); break; }
    case 2: { pos<T>(c,ToConstKokkos<T>(d,r,n),r,n,fl,pl,true,w); pos<T>(c,ToConstKokkos<T,LL>(d,r,n),r,n,fl,pl,true,w); pos<T>(c,ToConstKokkos<T,LR>(d,r,n),r,n,fr,pr,true,w); break; }
    case 3: { int q=g.i(0,2); // windows of row-major, column-major and every-other-entry data
      if(q==0) pos<T>(c,ToKokkos<T>(std::make_tuple(long(d+i0*n+j0),std::make_tuple(R,C),std::make_tuple(n,1))),R,C,[&](int i,int j){return v0[(i0+i)*n+j0+j];},[&](int i,int j){return d+(i0+i)*n+j0+j;},true,w);
      else if(q==1) pos<T>(c,ToKokkos<T>(std::make_tuple(long(d),std::make_tuple(r,n),std::make_tuple(1,r))),r,n,fl,pl,true,w);
      else { int s=n>1?2:1,m=(n+s-1)/s; pos<T>(c,ToKokkos<T>(std::make_tuple(long(d),std::make_tuple(r,m),std::make_tuple(n,s))),r,m,[&](int i,int j){return v0[i*n+s*j];},[&](int i,int j){return d+i*n+s*j;},true,w); } break; }
    case 4: { pos1<T>(c,ToKokkos<T>(std::make_tuple(long(d+j0),r,n)),r,[&](int i){return v0[i*n+j0];},[&](int i){return d+i*n+j0;},true,w); break; }
    case 5: { auto s=KokkosToStd(ToKokkos<T>(d,N)); c.check(s==v0&&s.data()!=d,"conv-values",[&]{return w+": KokkosToStd differs";}); auto s2=KokkosToStd(StridedVector<const T,HS>(d+j0,LS(r,n))); bool ok=int(s2.size())==r; for(int i=0;ok&&i<r;++i) ok=s2[i]==v0[i*n+j0]; c.check(ok,"conv-values",[&]{return w+": KokkosToStd of a strided vector differs";}); break; }
    case 6: { pos1<T>(c,VecToKokkos<T,HS>(v),N,f1,p1,true,w); pos1<T>(c,ConstVecToKokkos<T,HS>(v),N,f1,p1,true,w); pos1<T>(c,VecToConstKokkos<T,HS>(v),N,f1,p1,true,w); break; }
    case 7: { pos<T>(c,MatToKokkos<T,HS>(v,n),r,n,fr,pr,true,w); pos<T>(c,MatToConstKokkos<T,HS>(v,n),r,n,fr,pr,true,w); break; }
    case 8: { EC A(r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(i,j)=fr(i,j); Eigen::Ref<EC,0,Eigen::Stride<-1,-1>> q(A); pos<T>(c,MatToKokkos<T>(q),r,n,fr,[&](int i,int j){return &A(i,j);},true,w); Eigen::Ref<EC,0,Eigen::Stride<-1,-1>> b(A.block(i0,j0,R,C)); pos<T>(c,MatToKokkos<T>(b),R,C,[&](int i,int j){return fr(i0+i,j0+j);},[&](int i,int j){return &A(i0+i,j0+j);},true,w); break; }
    case 9: { ER A(r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(i,j)=fr(i,j); Eigen::Ref<ER,0,Eigen::Stride<-1,-1>> q(A); pos<T>(c,MatToKokkos<T>(q),r,n,fr,[&](int i,int j){return &A(i,j);},true,w); Eigen::Ref<ER,0,Eigen::Stride<-1,-1>> b(A.block(i0,j0,R,C)); pos<T>(c,MatToKokkos<T>(b),R,C,[&](int i,int j){return fr(i0+i,j0+j);},[&](int i,int j){return &A(i0+i,j0+j);},true,w); break; }
    case 10: { EC A(n,r); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(j,i)=fr(i,j); auto t=A.transpose(); Eigen::Ref<ER,0,Eigen::Stride<-1,-1>> q(t); pos<T>(c,MatToKokkos<T>(q),r,n,fr,[&](int i,int j){return &A(j,i);},true,w); break; }
    case 11: { ER A(n,r); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(j,i)=fr(i,j); auto t=A.transpose(); Eigen::Ref<EC,0,Eigen::Stride<-1,-1>> q(t); pos<T>(c,MatToKokkos<T>(q),r,n,fr,[&](int i,int j){return &A(j,i);},true,w); break; }
    case 12: { ER A(r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(i,j)=fr(i,j); pos<T>(c,ConstRowMatToKokkos<T>(A),r,n,fr,[&](int i,int j){return &A(i,j);},true,w); auto b=A.block(i0,j0,R,C); pos<T>(c,ConstRowMatToKokkos<T>(b),R,C,[&](int i,int j){return fr(i0+i,j0+j);},[&](int i,int j){return &A(i0+i,j0+j);},true,w); break; }
    case 13: { EC A(r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(i,j)=fr(i,j); pos<T>(c,ConstColMatToKokkos<T>(A),r,n,fr,[&](int i,int j){return &A(i,j);},true,w); auto b=A.block(i0,j0,R,C); pos<T>(c,ConstColMatToKokkos<T>(b),R,C,[&](int i,int j){return fr(i0+i,j0+j);},[&](int i,int j){return &A(i0+i,j0+j);},true,w); break; }
    case 14: { EV x(N); for(int i=0;i<N;++i) x(i)=f1(i); Eigen::Ref<EV,0,Eigen::InnerStride<-1>> q(x); pos1<T>(c,VecToKokkos<T>(q),N,f1,[&](int i){return &x(i);},true,w); EC A(r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) A(i,j)=fr(i,j); auto row=A.row(i0).transpose(); Eigen::Ref<EV,0,Eigen::InnerStride<-1>> q2(row); pos1<T>(c,VecToKokkos<T>(q2),n,[&](int j){return fr(i0,j);},[&](int j){return &A(i0,j);},true,w); break; }
    case 15: { Kokkos::View<T*,HS> x("x",N); for(int i=0;i<N;++i) x(i)=f1(i); posE<T>(c,KokkosToVec(x),N,1,[&](int i,int){return f1(i);},[&](int i,int){return &x(i);},true,w); auto cp=CopyKokkosToVec(x); posE<T>(c,cp,N,1,[&](int i,int){return f1(i);},[&](int i,int){return &x(i);},false,w);
      StridedVector<T,HS> s(d+j0,LS(r,n)); posE<T>(c,KokkosToVec(s),r,1,[&](int i,int){return fr(i,j0);},[&](int i,int){return pr(i,j0);},true,w); auto sc=CopyKokkosToVec(s); posE<T>(c,sc,r,1,[&](int i,int){return fr(i,j0);},[&](int i,int){return pr(i,j0);},false,w); break; }
    case 16: { Kokkos::View<T**,LL,HS> x("x",r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) x(i,j)=fr(i,j); auto p=[&](int i,int j){return &x(i,j);}; posE<T>(c,KokkosToMat(x),r,n,fr,p,true,w); auto cp=CopyKokkosToMat(x); posE<T>(c,cp,r,n,fr,p,false,w); Kokkos::View<const T**,LL,HS> xc=x; auto m=ConstKokkosToMat(xc); posE<T>(c,m,r,n,fr,p,true,w);
      Kokkos::View<T**,LL,HS> s=Kokkos::subview(x,std::make_pair(i0,i0+R),std::make_pair(j0,j0+C)); auto fs=[&](int i,int j){return fr(i0+i,j0+j);}; auto ps=[&](int i,int j){return &x(i0+i,j0+j);}; posE<T>(c,KokkosToMat(s),R,C,fs,ps,true,w+" sub"); auto cs=CopyKokkosToMat(s); posE<T>(c,cs,R,C,fs,ps,false,w+" sub"); Kokkos::View<const T**,LL,HS> sc=s; auto ms=ConstKokkosToMat(sc); posE<T>(c,ms,R,C,fs,ps,true,w+" sub"); break; }
    case 17: { Kokkos::View<T**,LR,HS> x("x",r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) x(i,j)=fr(i,j); auto p=[&](int i,int j){return &x(i,j);}; posE<T>(c,KokkosToMat(x),r,n,fr,p,true,w); auto cp=CopyKokkosToMat(x); posE<T>(c,cp,r,n,fr,p,false,w); Kokkos::View<const T**,LR,HS> xc=x; auto m=ConstKokkosToMat(xc); posE<T>(c,m,r,n,fr,p,true,w);
      Kokkos::View<T**,LR,HS> s=Kokkos::subview(x,std::make_pair(i0,i0+R),std::make_pair(j0,j0+C)); auto fs=[&](int i,int j){return fr(i0+i,j0+j);}; auto ps=[&](int i,int j){return &x(i0+i,j0+j);}; posE<T>(c,KokkosToMat(s),R,C,fs,ps,true,w+" sub"); auto cs=CopyKokkosToMat(s); posE<T>(c,cs,R,C,fs,ps,false,w+" sub"); Kokkos::View<const T**,LR,HS> sc=s; auto ms=ConstKokkosToMat(sc); posE<T>(c,ms,R,C,fs,ps,true,w+" sub"); break; }
    case 18: { bool cm=g.b(); StridedMatrix<T,HS> s(d+(cm?j0*r+i0:i0*n+j0),cm?LS(R,1,C,r):LS(R,n,C,1)); auto fs=[&](int i,int j){return cm?fl(i0+i,j0+j):fr(i0+i,j0+j);}; auto ps=[&](int i,int j){return cm?pl(i0+i,j0+j):pr(i0+i,j0+j);}; posE<T>(c,KokkosToMat(s),R,C,fs,ps,true,w); auto cs=CopyKokkosToMat(s); posE<T>(c,cs,R,C,fs,ps,false,w); StridedMatrix<const T,HS> sc=s; auto m=ConstKokkosToMat(sc); posE<T>(c,m,R,C,fs,ps,true,w);
      if(n>2){ StridedMatrix<T,HS> e(d,LS(r,n,(n+1)/2,2)); posE<T>(c,KokkosToMat(e),r,(n+1)/2,[&](int i,int j){return fr(i,2*j);},[&](int i,int j){return pr(i,2*j);},true,w+" every other"); } break; }
    default: { Kokkos::View<T*,HS> x("x",N); for(int i=0;i<N;++i) x(i)=f1(i); auto h=ToHost<HS>(x); bool ok=int(h.extent(0))==N; for(int i=0;ok&&i<N;++i) ok=h(i)==f1(i); c.check(ok,"conv-values",[&]{return w+": ToHost of a vector";});
      Kokkos::View<T**,HS> y("y",r,n); for(int i=0;i<r;++i) for(int j=0;j<n;++j) y(i,j)=fr(i,j); auto h2=ToHost<HS>(y); ok=int(h2.extent(0))==r&&int(h2.extent(1))==n; for(int i=0;ok&&i<r;++i) for(int j=0;ok&&j<n;++j) ok=h2(i,j)==fr(i,j); c.check(ok,"conv-values",[&]{return w+": ToHost of a matrix";});
      StridedMatrix<T,HS> s(d,LS(r,n,n,1)); auto h3=ToHost<HS,T>(s); ok=int(h3.extent(0))==r&&int(h3.extent(1))==n; for(int i=0;ok&&i<r;++i) for(int j=0;ok&&j<n;++j) ok=h3(i,j)==fr(i,j); c.check(ok,"conv-values",[&]{return w+": ToHost of a strided matrix";});
auto h4=ToHost(x,std::make_pair(i0,i0+R)); ok=int(h4.extent(0))==R; for(int i=0;ok&&i<R;++i) ok=h4(i)==f1(i0+i); c.check(ok,"conv-values",[&]{return w+": ToHost of a slice";});
      auto h5=ToHost(y,std::make_pair(i0,i0+R),std::make_pair(j0,j0+C)); ok=int(h5.extent(0))==R&&int(h5.extent(1))==C; for(int i=0;ok&&i<R;++i) for(int j=0;ok&&j<C;++j) ok=h5(i,j)==fr(i0+i,j0+j); c.check(ok,"conv-values",[&]{return w+": ToHost of a 2-D slice";});
    } }
  c.check(v==v0,"conv-source",[&]{return w+": the source changed";});
}
static void tConv(Ctx& c){ switch(c.rng.i(0,3)){ case 0: convT<int>(c,"int"); break; case 1: convT<unsigned int>(c,"unsigned"); break; default: convT<double>(c,"double"); } }
static void c21(Ctx& c){ switch(c.rng.i(0,6)){ case 0: case 1: tGemm(c); break; case 2: tStar(c); break; case 3: tAdd(c); break; case 4: tRed(c); break; case 5: tFact(c); break; default: tConv(c); } }
static Reg r21("C21",c21);
int main(int argc,char** argv){ initFn()=[]{ Kokkos::InitArguments a; Kokkos::initialize(a); }; doneFn()=[]{ Kokkos::finalize(); }; return run_main(argc,argv); }
