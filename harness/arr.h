// Arrays with exact allocations and any stride pattern, handed to the library as strided views.
#pragma once
#include "vh.h"
#include <Kokkos_Core.hpp>
#include "MParT/Utilities/ArrayConversions.h"
#include <memory>
namespace arr {
typedef Kokkos::HostSpace HS;
typedef mpart::StridedMatrix<const double,HS> CMat;
typedef mpart::StridedMatrix<double,HS> Mat;
typedef mpart::StridedVector<const double,HS> CVec;
typedef mpart::StridedVector<double,HS> Vec;
static const double PAD=-7.7170001e77;

struct Arr {
  std::shared_ptr<double> buf; size_t n=0; int R=0,C=0; long s0=0,s1=0,off=0;
  static const int KINDS=6;
  // 0 left, 1 right, 2 left padded, 3 right padded, 4 doubly strided, 5 offset inside a larger right array
  Arr(){}
  Arr(int r,int c,int kind=0): R(r),C(c) {
    switch(kind){ case 0: s0=1; s1=r; break; case 1: s0=c; s1=1; break; case 2: s0=1; s1=r+3; break; case 3: s0=c+2; s1=1; break; case 4: s0=2; s1=2*r+1; break; default: s0=c+4; s1=1; off=2; }
    n= (r&&c)? size_t(off+(r-1)*s0+(c-1)*s1+1) : 0; if(kind==5&&n) n+=2;
    buf=std::shared_ptr<double>(new double[n],[](double* p){ delete[] p; }); for(size_t i=0;i<n;++i) buf.get()[i]=PAD; }
  Arr(std::vector<std::vector<double>> const& cols,int rows,int kind): Arr(rows,int(cols.size()),kind) { for(int j=0;j<C;++j) for(int i=0;i<R;++i) at(i,j)=cols[j][i]; }
  double& at(int i,int j){ return buf.get()[off+i*s0+j*s1]; }
  double at(int i,int j) const { return buf.get()[off+i*s0+j*s1]; }
  void fill(double v){ for(int i=0;i<R;++i) for(int j=0;j<C;++j) at(i,j)=v; }
  Mat m() const { return Mat(buf.get()+off,Kokkos::LayoutStride(R,s0,C,s1)); }
  CMat c() const { return CMat(buf.get()+off,Kokkos::LayoutStride(R,s0,C,s1)); }
  Vec rowv(int i=0) const { return Vec(buf.get()+off+i*s0,Kokkos::LayoutStride(C,s1)); }
  CVec crowv(int i=0) const { return CVec(buf.get()+off+i*s0,Kokkos::LayoutStride(C,s1)); }
  std::vector<std::vector<double>> cols() const { std::vector<std::vector<double>> o(C,std::vector<double>(R)); for(int j=0;j<C;++j) for(int i=0;i<R;++i) o[j][i]=at(i,j); return o; }
  // entries outside the logical array still hold the pad value
  bool padsIntact() const { std::vector<char> in(n,0); for(int i=0;i<R;++i) for(int j=0;j<C;++j) in[off+i*s0+j*s1]=1; for(size_t k=0;k<n;++k) if(!in[k]&&buf.get()[k]!=PAD) return false; return true; }
  std::vector<double> raw() const { return std::vector<double>(buf.get(),buf.get()+n); }
};
typedef std::vector<std::vector<double>> Cols;
inline bool sameBits(double a,double b){ if(std::isnan(a)&&std::isnan(b)) return true; return std::memcmp(&a,&b,8)==0 || (a==0&&b==0); }
inline bool sameBits(Cols const& a,Cols const& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i){ if(a[i].size()!=b[i].size()) return false; for(size_t k=0;k<a[i].size();++k) if(!sameBits(a[i][k],b[i][k])) return false; } return true; }
template<class V> Cols colsOf(V const& v){ Cols o(v.extent(1),std::vector<double>(v.extent(0))); for(size_t j=0;j<o.size();++j) for(size_t i=0;i<v.extent(0);++i) o[j][i]=v(i,j); return o; }
inline std::string showDiff(Cols const& a,Cols const& b){ if(a.size()!=b.size()) return "different numbers of columns"; for(size_t j=0;j<a.size();++j) for(size_t i=0;i<a[j].size()&&i<b[j].size();++i) if(!sameBits(a[j][i],b[j][i])) return vh::S()<<"entry ("<<i<<","<<j<<"): "<<a[j][i]<<" vs "<<b[j][i]; return "shape"; }
} // namespace arr
