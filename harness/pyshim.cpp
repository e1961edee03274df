// Replays, through the C++ interface, what a Python program did through the Python module (loaded in the same process), and
// compares the recorded results. The script is one request per line; see checks/py_c22.py for who writes it.
#include "MParT/MapFactory.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include <sstream>
#include <map>
#include <cmath>
#include <iostream>
using namespace mpart; typedef Kokkos::HostSpace HS; typedef std::shared_ptr<ParameterizedFunctionBase<HS>> FP; typedef std::shared_ptr<ConditionalMapBase<HS>> MP;
typedef Kokkos::View<double**,Kokkos::LayoutLeft,HS> M2;
namespace {
std::map<int,FP> F; std::map<int,MultiIndexSet> S_; std::map<int,MapOptions> O; std::map<int,std::shared_ptr<MapObjective<HS>>> K;
struct In { std::istringstream s; In(std::string const& l):s(l){} std::string w(){ std::string t; if(!(s>>t)) throw std::logic_error("replay script ended early"); return t; } int i(){ return std::stoi(w()); } double d(){ return std::strtod(w().c_str(),nullptr); } bool b(){ return i()!=0; } };
M2 mat(In& in){ int r=in.i(),c=in.i(); M2 m("m",r,c); for(int j=0;j<c;++j) for(int i=0;i<r;++i) m(i,j)=in.d(); return m; }
std::vector<double> flat(In& in){ int n=in.i(); std::vector<double> v(n); for(auto&x:v) x=in.d(); return v; }
std::vector<unsigned> uvec(In& in){ int n=in.i(); std::vector<unsigned> v(n); for(auto&x:v) x=in.i(); return v; }
MapOptions opts(In& in){ MapOptions o; o.basisType=BasisTypes(in.i()); o.basisNorm=in.b(); o.basisLB=in.d(); o.basisUB=in.d(); o.posFuncType=PosFuncTypes(in.i()); o.quadType=QuadTypes(in.i()); o.quadAbsTol=in.d(); o.quadRelTol=in.d(); o.quadMaxSub=in.i(); o.quadMinSub=in.i(); o.quadPts=in.i(); o.contDeriv=in.b(); o.nugget=in.d(); return o; }
MP asMap(FP f){ auto m=std::dynamic_pointer_cast<ConditionalMapBase<HS>>(f); if(!m) throw std::logic_error("not a map"); return m; }
std::function<bool(MultiIndex const&)> limiter(In& in){ std::string k=in.w(); if(k=="none") return MultiIndexLimiter::None(); if(k=="total"){ return MultiIndexLimiter::TotalOrder(in.i()); } if(k=="dim"){ int a=in.i(),b=in.i(); return MultiIndexLimiter::Dimension(a,b); } if(k=="max"){ int a=in.i(),b=in.i(); return MultiIndexLimiter::MaxDegree(a,b); } if(k=="aniso"){ auto w=flat(in); double e=in.d(); return MultiIndexLimiter::Anisotropic(w,e); } auto a=limiter(in); auto b=limiter(in); if(k=="and") return MultiIndexLimiter::And(a,b); if(k=="or") return MultiIndexLimiter::Or(a,b); return MultiIndexLimiter::Xor(a,b); }
MultiIndexSet setOf(In& in){ int d=in.i(),n=in.i(); Eigen::MatrixXi m(n,d); for(int t=0;t<n;++t) for(int k=0;k<d;++k) m(t,k)=in.i(); return MultiIndexSet(m); }
void add(std::vector<double>& o,MultiIndex const& m){ for(auto v:m.Vector()) o.push_back(v); }
std::vector<double> cols(M2 m){ std::vector<double> o; for(size_t j=0;j<m.extent(1);++j) for(size_t i=0;i<m.extent(0);++i) o.push_back(m(i,j)); return o; }
std::string cmp(std::vector<double> const& want,std::vector<double> const& got,double tol,int f32){ std::ostringstream o; o.precision(17); if(want.size()!=got.size()){ o<<"sizes differ: C++ "<<want.size()<<" Python "<<got.size(); return o.str(); } double sc=0; for(double w:want) if(std::isfinite(w)) sc=std::max(sc,std::fabs(w));
  for(size_t k=0;k<want.size();++k){ double w= f32==1? double(float(want[k])) : want[k]; double g=got[k]; if(w==g||(std::isnan(w)&&std::isnan(g))) continue; if(tol>0&&std::fabs(w-g)<=tol*std::max(sc,1e-300)) continue; o<<"entry "<<k<<": C++ "<<w<<" Python "<<g; return o.str(); } return ""; }
std::string line(std::string const& l,int& n){ In in(l); std::string k=in.w();
  if(k=="opts"){ int id=in.i(); O[id]=opts(in); return ""; }
  if(k=="comp"){ int id=in.i(),o=in.i(); bool c=in.b(); auto s=setOf(in); F[id]=MapFactory::CreateComponent<HS>(s.Fix(c),O.at(o)); return ""; }
  if(k=="totri"){ int id=in.i(),o=in.i(),a=in.i(),b=in.i(),p=in.i(); F[id]=MapFactory::CreateTriangular<HS>(a,b,p,O.at(o)); return ""; }
  if(k=="single"){ int id=in.i(),d=in.i(),a=in.i(),c=in.i(); F[id]=MapFactory::CreateSingleEntryMap<HS>(d,a,asMap(F.at(c))); return ""; }
  if(k=="tri"||k=="compose"){ int id=in.i(); int chk= k=="compose"? in.i() : 0; auto ids=uvec(in); std::vector<MP> p; for(auto q:ids) p.push_back(asMap(F.at(q))); if(k=="tri") F[id]=std::make_shared<TriangularMap<HS>>(p,false); else F[id]=std::make_shared<ComposedMap<HS>>(p,false,chk); return ""; }
  if(k=="affmap"||k=="afffun"){ int id=in.i(),w=in.i(); M2 A; Kokkos::View<double*,HS> b; if(w&1) A=mat(in); if(w&2){ auto v=flat(in); b=Kokkos::View<double*,HS>("b",v.size()); for(size_t i=0;i<v.size();++i) b(i)=v[i]; }
    if(k=="affmap") F[id]= w==3? std::make_shared<AffineMap<HS>>(A,b) : w==1? std::make_shared<AffineMap<HS>>(A) : std::make_shared<AffineMap<HS>>(b); else F[id]= w==3? FP(std::make_shared<AffineFunction<HS>>(A,b)) : w==1? FP(std::make_shared<AffineFunction<HS>>(A)) : FP(std::make_shared<AffineFunction<HS>>(b)); return ""; }
  if(k=="ident"){ int id=in.i(),a=in.i(),b=in.i(); F[id]=std::make_shared<IdentityMap<HS>>(a,b); return ""; }
  if(k=="summ"){ int id=in.i(),f=in.i(),m=in.i(); F[id]=std::make_shared<SummarizedMap<HS>>(F.at(f),asMap(F.at(m))); return ""; }
  if(k=="coef"){ int id=in.i(); auto v=flat(in); Kokkos::View<double*,HS> c("c",v.size()); for(size_t i=0;i<v.size();++i) c(i)=v[i]; F.at(id)->SetCoeffs(Kokkos::View<const double*,HS>(c)); return ""; }
  if(k=="dims"){ int id=in.i(); ++n; return cmp({double(F.at(id)->inputDim),double(F.at(id)->outputDim),double(F.at(id)->numCoeffs)},flat(in),0,0); }
  if(k=="op"){ ++n; std::string op=in.w(); int id=in.i(),f32=in.i(); auto f=F.at(id); StridedMatrix<const double,HS> x=mat(in); size_t N=x.extent(1); std::vector<double> want; double tol=0;
    auto sens=[&]{ return StridedMatrix<const double,HS>(mat(in)); };
    if(op=="eval"){ M2 o("o",f->outputDim,N); f->EvaluateImpl(x,o); want=cols(o); }
    else if(op=="grad"||op=="tgrad"){ auto s=sens(); M2 o("o",f->inputDim,N); f->GradientImpl(x,s,o); if(op=="tgrad"){ tol=1e-12; auto ls=flat(in); if(!ls.empty()){ M2 g("g",f->inputDim,N); asMap(f)->LogDeterminantInputGradImpl(x,g); for(size_t j=0;j<N;++j) for(size_t i=0;i<f->inputDim;++i) o(i,j)+=g(i,j)*ls[j]; } } want=cols(o); }
    else if(op=="cgrad"||op=="tcgrad"){ auto s=sens(); M2 o("o",f->numCoeffs,N); f->CoeffGradImpl(x,s,o); if(op=="cgrad") want=cols(o); else { tol=1e-11; auto ls=flat(in); want.assign(f->numCoeffs,0); for(size_t j=0;j<N;++j) for(size_t i=0;i<f->numCoeffs;++i) want[i]+=o(i,j); if(!ls.empty()){ M2 g("g",f->numCoeffs,N); asMap(f)->LogDeterminantCoeffGradImpl(x,g); for(size_t j=0;j<N;++j) for(size_t i=0;i<f->numCoeffs;++i) want[i]+=g(i,j)*ls[j]; } } }
    else if(op=="logdet"){ Kokkos::View<double*,HS> o("o",N); asMap(f)->LogDeterminantImpl(x,o); for(size_t j=0;j<N;++j) want.push_back(o(j)); }
    else if(op=="ldi"){ M2 o("o",f->inputDim,N); asMap(f)->LogDeterminantInputGradImpl(x,o); want=cols(o); }
    else if(op=="ldc"){ M2 o("o",f->numCoeffs,N); asMap(f)->LogDeterminantCoeffGradImpl(x,o); want=cols(o); }
    else if(op=="inv"){ auto r=sens(); M2 o("o",f->outputDim,r.extent(1)); asMap(f)->InverseImpl(x,r,o); want=cols(o); }
    else throw std::logic_error("unknown op "+op);
    if(f32==1) tol=std::max(tol,op[0]=='t'? 4e-6 : 0.0); if(f32==2) tol=std::max(tol, 4e-3); return cmp(want,flat(in),tol,f32); }
  if(k=="mset"){ int id=in.i(); S_.erase(id); S_.emplace(id,setOf(in)); return ""; }
  if(k=="mscreate"){ int id=in.i(); bool tp=in.b(); int d=in.i(),p=in.i(); auto lim=limiter(in); S_.erase(id); S_.emplace(id,tp? MultiIndexSet::CreateTensorProduct(d,p,lim) : MultiIndexSet::CreateTotalOrder(d,p,lim)); return ""; }
  if(k=="mscopy"){ int id=in.i(),o=in.i(); S_.erase(id); S_.emplace(id,MultiIndexSet(S_.at(o))); return ""; }
  if(k=="msop"){ ++n; int id=in.i(); auto& s=S_.at(id); std::string op=in.w(); std::vector<double> want; auto multis=[&](std::vector<MultiIndex> const& v){ for(auto&m:v) add(want,m); }; auto ids=[&](auto const& v){ for(auto q:v) want.push_back(q); };
    if(op=="list"){ for(unsigned i=0;i<s.Size();++i) add(want,s.IndexToMulti(i)); want.push_back(s.Size()); want.push_back(s.Length()); ids(s.MaxOrders()); }
    else if(op=="margin") multis(s.Margin()); else if(op=="rmargin") multis(s.ReducedMargin()); else if(op=="frontier") ids(s.Frontier()); else if(op=="sfrontier") ids(s.StrictFrontier());
    else if(op=="expand") ids(s.Expand()); else if(op=="expand1"){ unsigned q=in.i(); ids(s.Expand(q)); }
    else if(op=="isexp"){ unsigned q=in.i(); want={double(s.IsExpandable(q)),double(s.NumForward(q)),double(s.NumActiveForward(q))}; }
    else if(op=="m2i"){ MultiIndex m(uvec(in)); want={double(s.MultiToIndex(m))}; }
    else if(op=="append"){ s+=MultiIndex(uvec(in)); } else if(op=="addactive"){ MultiIndex m(uvec(in)); want={double(s.AddActive(m))}; } else if(op=="activate"){ MultiIndex m(uvec(in)); s.Activate(m); }
    else if(op=="union"){ want={double(s.Union(S_.at(in.i())))}; } else if(op=="setlim"){ double ok=1; try{ s.SetLimiter(limiter(in)); }catch(std::exception const&){ ok=0; } want={ok}; }
    else if(op=="fix"){ bool c=in.b(); auto f=s.Fix(c); auto D=f.MaxDegrees(); want={double(f.Size()),double(f.Length())}; for(size_t i=0;i<D.extent(0);++i) want.push_back(D(i)); for(unsigned i=0;i<f.Size();++i){ auto t=f.IndexToMulti(i); for(auto q:t) want.push_back(q); want.push_back(f.MultiToIndex(t)); } }
    else throw std::logic_error("unknown set op "+op); return cmp(want,flat(in),0,0); }
  if(k=="fixto"){ ++n; int d=in.i(),p=in.i(); FixedMultiIndexSet<HS> f(d,p); std::vector<double> want={double(f.Size())}; for(unsigned i=0;i<f.Size();++i){ auto t=f.IndexToMulti(i); for(auto q:t) want.push_back(q); } return cmp(want,flat(in),0,0); }
  if(k=="limit"){ ++n; auto l2=limiter(in); MultiIndex m(uvec(in)); return cmp({double(l2(m))},flat(in),0,0); }
  if(k=="kl"){ int id=in.i(); int d=in.i(); bool te=in.b(); StridedMatrix<const double,HS> a=mat(in); if(te){ StridedMatrix<const double,HS> b=mat(in); K[id]=ObjectiveFactory::CreateGaussianKLObjective<HS>(a,b,d); } else K[id]=ObjectiveFactory::CreateGaussianKLObjective<HS>(a,d); return ""; }
  if(k=="err"){ ++n; int id=in.i(),m=in.i(); bool te=in.b(); auto p=asMap(F.at(m)); return cmp({te? K.at(id)->TestError(p):K.at(id)->TrainError(p)},flat(in),0,0); }
  if(k=="train"){ ++n; int id=in.i(),m=in.i(); TrainOptions t; t.opt_alg=in.w(); t.opt_maxeval=in.i(); t.opt_ftol_rel=in.d(); t.opt_xtol_rel=in.d(); t.verbose=0; auto p=asMap(F.at(m)); double e=TrainMap<HS>(p,K.at(id),t); std::vector<double> want={e}; auto c=p->Coeffs(); for(size_t i=0;i<c.extent(0);++i) want.push_back(c(i)); return cmp(want,flat(in),0,0); }
  if(k=="adapt"){ ++n; int id=in.i(); auto ids=uvec(in); ATMOptions t; int o=in.i(); static_cast<MapOptions&>(t)=O.at(o); t.maxSize=in.i(); t.maxPatience=in.i(); t.opt_maxeval=in.i(); t.verbose=0; std::vector<MultiIndexSet> ms; for(auto q:ids) ms.push_back(S_.at(q)); auto p=TrainMapAdaptive<HS>(ms,K.at(id),t); std::vector<double> want; auto c=p->Coeffs(); for(size_t i=0;i<c.extent(0);++i) want.push_back(c(i)); for(auto&s:ms){ want.push_back(s.Size()); for(unsigned i=0;i<s.Size();++i) add(want,s.IndexToMulti(i)); } return cmp(want,flat(in),0,0); }
  throw std::logic_error("unknown request "+k); }
std::string out; }
// "" and "n <comparisons>" lines, "bad <line> <message>" for every difference, "error <line> <message>" for what C++ refused
extern "C" const char* vh_replay(const char* text){ F.clear(); S_.clear(); O.clear(); K.clear(); std::istringstream in(text); std::string l; std::ostringstream o; int k=0,n=0; std::ostringstream quiet; auto* b=std::cout.rdbuf(quiet.rdbuf());
  while(std::getline(in,l)){ if(l.empty()){ ++k; continue; } try { std::string r=line(l,n); if(!r.empty()) o<<"bad "<<k<<" "<<r<<"\n"; } catch(std::exception const& e){ std::string m=e.what(); for(auto&c:m) if(c=='\n') c=' '; o<<"error "<<k<<" "<<m<<"\n"; } ++k; }
  std::cout.rdbuf(b); F.clear(); S_.clear(); K.clear(); o<<"n "<<n<<"\n"; out=o.str(); return out.c_str(); }
