// Operations on maps: library calls through every interface, and their reference values.
#pragma once
#include "gen.h"
#include "arr.h"
namespace maps {
using namespace vh; using namespace ref; using namespace gen; using arr::Arr; using arr::Cols; using arr::sameBits; using arr::showDiff; using arr::colsOf;

enum Op { EVAL, LOGDET, GRAD, CGRAD, LDC, LDI, INV, NOPS };
static const char* opName[]={"Evaluate","LogDeterminant","Gradient","CoeffGrad","LogDeterminantCoeffGrad","LogDeterminantInputGrad","Inverse"};
enum Api { IMPL, VIEW, EIGEN };
struct Mode { int api=IMPL, kin=0, ksens=0, kout=0; double fill=0; };
inline Mode genMode(Rng& r){ Mode m; m.api=r.pick({0,0,1,2}); m.kin=r.i(0,5); m.ksens=r.i(0,5); m.kout=r.i(0,5); m.fill=r.pick({0.0,1.0,-3.5,1e300,std::nan(""),INF}); return m; }
inline std::string show(Mode const& m){ return S()<<"api"<<m.api<<" in"<<m.kin<<" sens"<<m.ksens<<" out"<<m.kout<<" fill"<<m.fill; }
inline int outRows(Node const& n,Op op){ switch(op){ case EVAL: return n.outDim; case LOGDET: return 1; case GRAD: case LDI: return n.inDim; case CGRAD: case LDC: return n.nc; default: return n.outDim; } }

inline void setCoeffs(MapP m,std::vector<double> const& c){ m->SetCoeffs(Kokkos::View<const double*,HS>(kvec(c))); }
inline MapP buildWith(Node const& n,std::vector<double> const& c){ MapP m=build(n); setCoeffs(m,c); return m; }

struct Intact { bool pads=true, inputs=true; };
inline Eigen::RowMatrixXd toEigen(Cols const& c,int rows){ Eigen::RowMatrixXd e(rows,c.size()); for(size_t j=0;j<c.size();++j) for(int i=0;i<rows;++i) e(i,j)=c[j][i]; return e; }
inline Cols fromEigen(Eigen::RowMatrixXd const& e){ Cols o(e.cols(),std::vector<double>(e.rows())); for(int j=0;j<e.cols();++j) for(int i=0;i<e.rows();++i) o[j][i]=e(i,j); return o; }
inline Cols rowToCols(Kokkos::View<double*,HS> const& v){ Cols o(v.extent(0)); for(size_t j=0;j<o.size();++j) o[j]={v(j)}; return o; }

// X: points (for INV: the prefix), S: sensitivities (for INV: targets)
inline Cols run(MapP m,Node const& n,Op op,Cols const& X,Cols const& S2,Mode const& md,Intact* it=nullptr,int xrows=-1){
  int N= op==INV? int(S2.size()) : int(X.size());
  if(xrows<0) xrows = op==INV? n.inDim-n.outDim : n.inDim;
  Arr x(xrows,int(X.size()),md.kin), s; for(size_t j=0;j<X.size();++j) for(int i=0;i<xrows;++i) x.at(i,j)=X[j][i];
  bool hasS= op==GRAD||op==CGRAD||op==INV; if(hasS) s=Arr(S2,n.outDim,md.ksens);
  if(md.api==IMPL){
    Arr o(outRows(n,op),N,md.kout); o.fill(md.fill); auto rx=x.raw(), rs=s.raw();
    switch(op){
      case EVAL: m->EvaluateImpl(x.c(),o.m()); break; case LOGDET: m->LogDeterminantImpl(x.c(),o.rowv()); break;
      case GRAD: m->GradientImpl(x.c(),s.c(),o.m()); break; case CGRAD: m->CoeffGradImpl(x.c(),s.c(),o.m()); break;
      case LDC: m->LogDeterminantCoeffGradImpl(x.c(),o.m()); break; case LDI: m->LogDeterminantInputGradImpl(x.c(),o.m()); break;
      default: m->InverseImpl(x.c(),s.c(),o.m()); }
    if(it){ it->pads=o.padsIntact(); auto qx=x.raw(), qs=s.raw(); it->inputs = (rx.empty()||!std::memcmp(rx.data(),qx.data(),rx.size()*8)) && (rs.empty()||!std::memcmp(rs.data(),qs.data(),rs.size()*8)); }
    return o.cols();
  }
  if(md.api==VIEW){
    auto rx=x.raw(), rs=s.raw(); Cols o;
    switch(op){
      case EVAL: o=colsOf(m->Evaluate(x.c())); break; case LOGDET: o=rowToCols(m->LogDeterminant(x.c())); break;
      case GRAD: o=colsOf(m->Gradient(x.c(),s.c())); break; case CGRAD: o=colsOf(m->CoeffGrad(x.c(),s.c())); break;
      case LDC: o=colsOf(m->LogDeterminantCoeffGrad(x.c())); break; case LDI: o=colsOf(m->LogDeterminantInputGrad(x.c())); break;
      default: o=colsOf(m->Inverse(x.c(),s.c())); }
    if(it){ auto qx=x.raw(), qs=s.raw(); it->inputs = (rx.empty()||!std::memcmp(rx.data(),qx.data(),rx.size()*8)) && (rs.empty()||!std::memcmp(rs.data(),qs.data(),rs.size()*8)); }
    return o;
  }
  // plain row-major matrices, blocks of larger ones, or column-major ones (copied by Eigen on the way in)
  auto host=[](Cols const& c,int rows,int kind,Eigen::RowMatrixXd& big){ int pr= kind>=3? 2:0, pc= kind>=2? 3:0; big=Eigen::RowMatrixXd::Constant(rows+pr,int(c.size())+pc,arr::PAD); Eigen::Ref<Eigen::RowMatrixXd> b(big.block(pr/2,pc/2,rows,c.size())); b=toEigen(c,rows); };
  Eigen::RowMatrixXd bigx,bigs; host(X,xrows,md.kin,bigx); if(hasS) host(S2,n.outDim,md.ksens,bigs); Eigen::RowMatrixXd keepx=bigx, keeps=bigs; Eigen::RowMatrixXd o;
  Eigen::MatrixXd colx; if(md.kin==1) colx=toEigen(X,xrows);
  auto sub=[](Eigen::RowMatrixXd const& big,int rows,int cols,int kind){ int pr= kind>=3? 1:0, pc= kind>=2? 1:0; return Eigen::Ref<const Eigen::RowMatrixXd>(big.block(pr,pc,rows,cols)); };
  Eigen::Ref<const Eigen::RowMatrixXd> ex= md.kin==1? Eigen::Ref<const Eigen::RowMatrixXd>(colx) : sub(bigx,xrows,int(X.size()),md.kin); Eigen::RowMatrixXd none; Eigen::Ref<const Eigen::RowMatrixXd> es= hasS? sub(bigs,n.outDim,int(S2.size()),md.ksens) : Eigen::Ref<const Eigen::RowMatrixXd>(none);
  switch(op){
    case EVAL: o=m->Evaluate(ex); break;
    case LOGDET: { Eigen::VectorXd v=m->LogDeterminant(ex); o.resize(1,v.size()); for(int j=0;j<v.size();++j) o(0,j)=v(j); break; }
    case GRAD: o=m->Gradient(ex,es); break; case CGRAD: o=m->CoeffGrad(ex,es); break;
    case LDC: o=m->LogDeterminantCoeffGrad(ex); break; case LDI: o=m->LogDeterminantInputGrad(ex); break;
    default: o=m->Inverse(ex,es); }
  if(it) it->inputs= (bigx==keepx || keepx.hasNaN()) && (!hasS || bigs==keeps || keeps.hasNaN());
  return fromEigen(o);
}

// reference value of an operation (not INV) at one point
inline std::vector<E> refOp(Node const& n,Op op,std::vector<double> const& x,std::vector<double> const& c,std::vector<double> const& s){
  int sv=JN(); std::vector<E> out;
  bool wx= op==GRAD||op==LDI, wc= op==CGRAD||op==LDC; JN()= wx? n.inDim : wc? n.nc : 0;
  std::vector<J> xj,cj; for(int i=0;i<n.inDim;++i) xj.push_back(wx? var(x[i],i):J(x[i])); for(int i=0;i<n.nc;++i) cj.push_back(wc? var(c[i],i):J(c[i]));
  if(op==EVAL||op==GRAD||op==CGRAD){ std::vector<J> y; n.eval(xj,cj.data(),y);
    if(op==EVAL){ for(auto&v:y) out.push_back(v.v); }
    else { J t(0.0); for(size_t i=0;i<y.size();++i) t=t+s[i]*y[i]; for(int i=0;i<JN();++i) out.push_back(t.d(i)); }
  } else { J l=n.logdet(xj,cj.data()); if(op==LOGDET) out.push_back(l.v); else for(int i=0;i<JN();++i) out.push_back(l.d(i)); }
  JN()=sv; return out;
}
inline Cols genSens(Rng& r,int rows,int N){ Cols s(N,std::vector<double>(rows)); int k=r.i(0,3); for(auto&c:s){ for(auto&v:c) v= k==0? 1.0 : r.n(); if(k==1){ for(auto&v:c) v=0; c[r.i(0,rows-1)]=1; } if(k==2&&r.b(0.3)) for(auto&v:c) v=0; } return s; }
inline std::string coef(std::vector<double> const& c){ return vstr(c); }
} // namespace maps
