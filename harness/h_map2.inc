// C02 (inverse), C06 (composition structure), C07 (coefficient histories), C08 (layout and batch independence), C10 (memory safety).

#include "invsafe.h"

// ---------------------------------------------------------------- C02
struct InvChk { long nonmono=0, exact=0, nanAccepted=0, flat=0; };
static void verifyInv(Ctx& c,Node const& n,std::vector<double> const& cf,std::vector<double> const& P,std::vector<double> const& rt,std::vector<double> const& xr,std::string const& where,bool topSquare,double extra,InvChk& k){
  if(auto q=dynamic_cast<CompX const*>(&n)){
    MapP m=buildWith(n,cf); double x=xr[0], y=rt[0];
    auto T=[&](std::vector<double> const& ts){ Cols X; for(double t:ts){ auto p=P; p.push_back(t); X.push_back(p);} auto L=run(m,n,EVAL,X,{},Mode()); std::vector<double> o; for(auto&v:L) o.push_back(v[0]); return o; };
    auto grid=[&]{ std::vector<double> g; for(int i=-12;i<=12;++i) g.push_back(5.0*i); auto v=T(g); for(size_t i=0;i+1<g.size();++i) if(!((v[i+1]-v[i])/5>1e-9)) return false; return y>v.front()&&y<v.back(); };
    c.eval();
    if(!std::isfinite(x)){ if(grid()) { bool fin=true; for(double p:P) if(!std::isfinite(p)) fin=false; if(!fin){ k.nanAccepted++; return; } c.fail("inverse-not-found:"+where,S()<<"P "<<vstr(P)<<" coefficients "<<vstr(cf)<<": Inverse gives "<<x<<" for target "<<y<<" although the map is increasing and attains it"); } else k.nanAccepted++; return; }
    double d=1.01e-6+4*std::fabs(x)*EPS*2+extra; auto v=T({x-d,x,x+d}); double sl=1e-12*(1+std::fabs(y)) + (q->q.type? 20*(q->q.abs+q->q.rel*(std::fabs(y)+std::fabs(v[1]))):0);
    bool ok= std::fabs(v[1]-y)<=1.0001e-6+sl || (v[0]-sl<=y && y<=v[2]+sl);
    auto monotone=[&]{ std::vector<double> g; for(int i=-400;i<=400;++i) g.push_back(x+ (i<0?-1:1)*1e-4*(std::pow(1.04,std::abs(i))-1)); for(int i=-200;i<=200;++i) g.push_back(0.1*i); std::sort(g.begin(),g.end()); auto v=T(g); for(size_t i=0;i+1<g.size();++i) if(v[i+1]<v[i]-1e-13*(1+std::fabs(v[i]))) return false; return true; };
    if(ok) k.exact++; else if(q->q.type==0&&!monotone()) k.nonmono++; else c.fail("inverse:"+where,S()<<"Inverse gives x="<<x<<" for target "<<y<<" but T(x)="<<v[1]<<", T(x-d)="<<v[0]<<", T(x+d)="<<v[2]);
    return; }
  if(auto q=dynamic_cast<TriX const*>(&n)){
    std::vector<double> full=P; full.insert(full.end(),xr.begin(),xr.end()); int o=0,co=0;
    for(auto&b:q->b){ int pi=b->inDim-b->outDim; verifyInv(c,*b,sub(cf,co,co+b->nc),sub(full,0,pi),sub(rt,o,o+b->outDim),sub(full,pi,b->inDim),where+">"+b->kind(),false,extra,k); o+=b->outDim; co+=b->nc; }
    return; }
  if(auto q=dynamic_cast<ComposX const*>(&n)){
    std::vector<double> t=rt; int co=n.nc; std::vector<std::vector<double>> lay;
    for(int l=int(q->b.size())-1;l>=0;--l){ auto&b=q->b[l]; co-=b->nc; auto cc=sub(cf,co,co+b->nc); MapP m=buildWith(*b,cc); Cols L=run(m,*b,INV,Cols(1,std::vector<double>()),Cols(1,t),Mode());
      bool fin=true; for(double v:t) if(!std::isfinite(v)) fin=false; if(!fin) return;
      verifyInv(c,*b,cc,{},t,L[0],where+">"+b->kind(),true,extra,k); t=L[0]; }
    c.eval(); for(size_t i=0;i<t.size();++i) if(!(sameBits(t[i],xr[i]) || std::fabs(t[i]-xr[i])<=1e-12*(1+std::fabs(t[i])))) c.fail("inverse-sequence:"+where,S()<<"entry "<<i<<": "<<xr[i]<<" but applying the layers' inverses gives "<<t[i]);
    return; }
  if(auto q=dynamic_cast<Summ const*>(&n)){ std::vector<double> xs=P; xs.push_back(0); int sv=JN(); JN()=0; auto s=q->summarize(toJ(xs)); JN()=sv; std::vector<double> t; for(size_t i=0;i+1<s.size();++i) t.push_back(s[i].v.v); verifyInv(c,*q->comp,cf,t,rt,xr,where+">component",false,extra,k); return; }
  if(auto q=dynamic_cast<Aff const*>(&n)){
    std::vector<double> full=P; full.insert(full.end(),xr.begin(),xr.end());
    for(int i=0;i<n.outDim;++i){ long double s=q->hasB?q->bb[i]:0, sc=std::fabs(rt[i])+std::fabs(double(s)); if(q->hasA){ for(int j=0;j<n.inDim;++j){ s+=(long double)q->A[i][j]*full[j]; sc+=std::fabs(q->A[i][j]*full[j]); } } else { s+=full[i+n.inDim-n.outDim]; sc+=std::fabs(full[i+n.inDim-n.outDim]); }
      c.eval(); k.exact++; bool fin=true; for(double v:full) if(!std::isfinite(v)) fin=false; if(fin||std::isfinite(rt[i])) if(!(std::fabs(double(s-rt[i]))<=1e-11*double(sc+1))&&std::isfinite(rt[i])&&fin) c.fail("inverse:"+where,S()<<"residual "<<double(s-rt[i])<<" in row "<<i); }
    return; }
  for(int i=0;i<n.outDim;++i){ c.eval(); k.exact++; if(!sameBits(xr[i],rt[i])) c.fail("inverse:"+where,S()<<"identity gives "<<xr[i]<<" for "<<rt[i]); }
}
static void c02(Ctx& c){
  auto& r=c.rng; GenOpt g; g.forInverse=true; g.maxTerms=8; g.maxCoef=20; g.maxOrder=3; g.tightTol=r.b(0.8); Instance I; int N=r.i(1,4);
  bool ok=false, one=false; for(int t=0;t<25&&!ok;++t){ NodeP n=genMap(r,g); if(!genInstance(r,n,N,I,30,300)) continue;
    if(r.b(0.15)) for(auto&x:I.x) if(r.b(0.6)) x[r.i(0,x.size()-1)]*=r.pick({4.0,10.0});
    one= isComp(*n)&&N>1&&r.b(0.15); if(one) for(auto&x:I.x) for(int i=0;i+1<n->inDim;++i) x[i]=I.x[0][i];   // one prefix for all targets
    ok=true; for(auto&x:I.x) if(!invSafe(*n,x,I.c)) ok=false; if(!ok) c.count("rejected_overflow_risk"); }
  if(!ok){ c.count("no_instance"); return; }
  Node const& n=*I.n; c.describe("inverse "+dsc(I,N)); c.cover(shape(n));
  MapP m=buildWith(n,I.c); Cols Y=run(m,n,EVAL,I.x,{},Mode()); int pd=n.inDim-n.outDim; Cols P; for(auto&x:I.x) P.push_back(sub(x,0,pd));
  if(r.b(0.3)&&!isComp(n)==false) for(auto&y:Y) y[0]+=r.pick({0.1,-0.3,1e-3});   // targets that are not images of round numbers
  int rows=pd; Cols X1=P; if(isComp(n)&&r.b(0.3)){ rows=n.inDim; for(auto&p:X1) p.push_back(3*r.n()); }  // a component takes an initial guess
  int nanCol=-1; Cols R=Y; if(N>1&&!one&&r.b(0.25)){ nanCol=r.i(0,N-1); if(pd>0&&r.b(0.4)) X1[nanCol][r.i(0,pd-1)]=std::nan(""); else R[nanCol][r.i(0,n.outDim-1)]=std::nan(""); }
  Mode md=genMode(r); if(one){ md.api=IMPL; X1.resize(1); c.count("shared_prefix"); } Intact it; Cols L=run(m,n,INV,X1,R,md,&it,rows);
  c.check(it.pads,"inverse-writes-outside",[&]{return "Inverse wrote outside its output array; "+maps::show(md);}); c.check(it.inputs,"inverse-modifies-inputs",[&]{return "Inverse modified its inputs; "+maps::show(md);});
  InvChk k; bool sq= n.inDim==n.outDim;
  for(int j=0;j<N;++j){ if(j==nanCol){ if(isComp(n)||dynamic_cast<Aff const*>(&n)==nullptr&&n.outDim==1&&!dynamic_cast<Ident const*>(&n)&&!dynamic_cast<Tri const*>(&n)&&!dynamic_cast<Compos const*>(&n)&&!dynamic_cast<Summ const*>(&n)) c.check(std::isnan(L[j][0]),"inverse-nan",[&]{return S()<<"NaN target or prefix gives "<<L[j][0];}); c.count("nan_columns"); continue; }
    verifyInv(c,n,I.c,P[j],R[j],L[j],n.kind(),sq,0,k); }
  if(nanCol>=0&&!hasProduct(n)){ Cols X2=X1,R2=R; X2.erase(X2.begin()+nanCol); R2.erase(R2.begin()+nanCol); Cols L2=run(m,n,INV,X2,R2,Mode(),nullptr,rows); Cols L1=L; L1.erase(L1.begin()+nanCol); c.check(sameBits(L1,L2),"inverse-nan-leaks",[&]{return "a NaN column changes other columns: "+showDiff(L1,L2);}); }
  if(r.b(0.05)&&X1.size()==R.size()&&!hasProduct(n)){ int M=r.pick({17,40,64,65,130,257}); std::vector<int> who(M); Cols X2,R2,L1; for(auto&w:who){ w=r.i(0,N-1); X2.push_back(X1[w]); R2.push_back(R[w]); L1.push_back(L[w]); } Cols L2=run(m,n,INV,X2,R2,genMode(r),nullptr,rows); c.count("long_batches"); c.check(sameBits(L1,L2),"inverse-batch",[&]{return S()<<"Inverse of a batch of "<<M<<" differs from the same columns in a batch of "<<N<<": "<<showDiff(L1,L2);}); }
  c.count("inverse_entries_verified",k.exact); c.count("unattainable_or_flat",k.nanAccepted); c.count("low_order_rule_not_monotone",k.nonmono);
}

// ---------------------------------------------------------------- C06
static void cmpCols(Ctx& c,Cols const& a,Cols const& b,double rel,std::string const& key,std::string const& what){
  c.eval(); if(a.size()!=b.size()){ c.fail(key,what+": different numbers of columns"); return; }
  for(size_t j=0;j<a.size();++j){ if(a[j].size()!=b[j].size()){ c.fail(key,what+": different numbers of rows"); return; }
    double sc=0; for(double v:a[j]) if(std::isfinite(v)) sc=std::max(sc,std::fabs(v)); for(double v:b[j]) if(std::isfinite(v)) sc=std::max(sc,std::fabs(v));
    for(size_t i=0;i<a[j].size();++i){ c.eval(); if(!(sameBits(a[j][i],b[j][i])||std::fabs(a[j][i]-b[j][i])<=rel*sc)){ c.fail(key,S()<<what<<" entry ("<<i<<","<<j<<"): "<<a[j][i]<<" vs "<<b[j][i]); return; } } }
}
static Cols rowsOf(Cols const& x,int a,int b){ Cols o; for(auto&v:x) o.push_back(sub(v,a,b)); return o; }
static void c06tri(Ctx& c,TriX const& t,Instance const& I,MapP m){
  auto& r=c.rng; int N=I.x.size(); Cols Y=run(m,t,EVAL,I.x,{},genMode(r)), LD=run(m,t,LOGDET,I.x,{},genMode(r)); Cols S2=genSens(r,t.outDim,N);
  Cols G=run(m,t,GRAD,I.x,S2,genMode(r)), CG=run(m,t,CGRAD,I.x,S2,genMode(r)); bool ldc=hasLDC(t), ldi=t.hasLogdetInputGrad(); Cols LC,LI; if(ldc) LC=run(m,t,LDC,I.x,{},genMode(r)); if(ldi) LI=run(m,t,LDI,I.x,{},genMode(r));
  Cols Y2(N),LD2(N,std::vector<double>(1,0.0)),G2(N,std::vector<double>(t.inDim,0.0)),CG2(N),LC2(N),LI2(N,std::vector<double>(t.inDim,0.0)); int o=0,co=0; bool prod=hasProduct(t);
  for(auto&b:t.b){ auto cc=sub(I.c,co,co+b->nc); MapP bm=buildWith(*b,cc); Cols X=rowsOf(I.x,0,b->inDim), Sb=rowsOf(S2,o,o+b->outDim); auto add=[&](Cols& D,Cols const& v){ for(int j=0;j<N;++j) D[j].insert(D[j].end(),v[j].begin(),v[j].end()); }; auto acc=[&](Cols& D,Cols const& v){ for(int j=0;j<N;++j) for(size_t i=0;i<v[j].size();++i) D[j][i]+=v[j][i]; };
    add(Y2,run(bm,*b,EVAL,X,{},Mode())); acc(LD2,run(bm,*b,LOGDET,X,{},Mode())); acc(G2,run(bm,*b,GRAD,X,Sb,Mode())); if(b->nc) add(CG2,run(bm,*b,CGRAD,X,Sb,Mode())); if(ldc&&b->nc) add(LC2,run(bm,*b,LDC,X,{},Mode())); if(ldi) acc(LI2,run(bm,*b,LDI,X,{},Mode()));
    o+=b->outDim; co+=b->nc; }
  double tol= prod?1e-12:1e-14; cmpCols(c,Y,Y2,prod?1e-12:0,"tri-outputs","triangular map vs its blocks"); cmpCols(c,LD,LD2,1e-11,"tri-logdet","log determinant vs sum over blocks"); cmpCols(c,G,G2,1e-11,"tri-gradient","input gradient vs sum over blocks"); cmpCols(c,CG,CG2,tol,"tri-coeffgrad","coefficient gradient vs blocks"); if(ldc) cmpCols(c,LC,LC2,tol,"tri-logdet-coeffgrad","log determinant coefficient gradient vs blocks"); if(ldi) cmpCols(c,LI,LI2,1e-11,"tri-logdet-inputgrad","log determinant input gradient vs blocks");
  // later inputs do not matter: change inputs seen only by the last block(s)
  if(t.b.size()>1){ size_t cut=r.i(0,int(t.b.size())-2); int din=t.b[cut]->inDim, rows=0; for(size_t k=0;k<=cut;++k) rows+=t.b[k]->outDim; Cols X=I.x; for(auto&x:X) for(int i=din;i<t.inDim;++i) x[i]= r.b(0.1)? std::nan("") : x[i]+r.n();
    for(size_t j=0;j<X.size();++j){ auto xs=X[j]; for(auto&v:xs) if(std::isnan(v)) v=0; if(!calm(I.n,Cols(1,xs),I.c,200,400)) X[j]=I.x[j]; }   // not where a rectifier overflows
    Cols Y3=run(m,t,EVAL,X,{},Mode()), Y1=run(m,t,EVAL,I.x,{},Mode());
    c.check(sameBits(rowsOf(Y3,0,rows),rowsOf(Y1,0,rows)),"tri-later-inputs",[&]{return "outputs change with inputs they must not depend on: "+showDiff(rowsOf(Y3,0,rows),rowsOf(Y1,0,rows));}); c.count("later_input_checks"); }
  // GetComponent, InverseInplace
  auto tm=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m);
  if(tm){ std::vector<double> cat; for(size_t k=0;k<t.b.size();++k){ auto bm=tm->GetComponent(k); c.check(int(bm->inputDim)==t.b[k]->inDim&&int(bm->outputDim)==t.b[k]->outDim&&int(bm->numCoeffs)==t.b[k]->nc,"tri-component-dims","GetComponent returns a map with other dimensions"); if(bm->numCoeffs) { auto v=bm->Coeffs(); for(size_t i=0;i<v.extent(0);++i) cat.push_back(v(i)); } }
    c.check(cat==I.c,"tri-component-coeffs",[&]{return "concatenated component coefficients "+vstr(cat)+" differ from the map's "+vstr(I.c);});
    bool safe=true; for(auto&x:I.x) if(!invSafe(t,x,I.c)) safe=false; 
    bool exps=contains(t,[](Node const& q){auto p=dynamic_cast<CompX const*>(&q); return p&&p->r==EXPR&&p->f.basis.fam!=HFUN&&!(p->f.basis.lin&&std::isfinite(p->f.basis.lb)&&std::isfinite(p->f.basis.ub));});
    if(safe&&!exps){ int pd=t.inDim-t.outDim; Cols P=rowsOf(I.x,0,pd); Cols A=run(m,t,INV,P,Y,Mode()); Arr full(t.inDim,N,r.i(0,5)), rr(Y,t.outDim,r.i(0,5)); full.fill(0); for(int j=0;j<N;++j) for(int i=0;i<pd;++i) full.at(i,j)=P[j][i];
      tm->InverseInplace(full.m(),rr.c()); Cols B=full.cols(); c.check(sameBits(rowsOf(B,pd,t.inDim),A)||prod,"inverse-inplace",[&]{return "InverseInplace differs from Inverse: "+showDiff(rowsOf(B,pd,t.inDim),A);}); c.check(sameBits(rowsOf(B,0,pd),P)&&full.padsIntact(),"inverse-inplace-prefix","InverseInplace changed the given leading rows or memory outside the array"); c.count("inverse_inplace_checks"); } }
}
static void c06composed(Ctx& c,ComposX const& t,Instance const& I,MapP m){
  auto& r=c.rng; int N=I.x.size(); bool ldc=hasLDC(t), ldi=t.hasLogdetInputGrad(); Cols S2=genSens(r,t.outDim,N); bool prod=hasProduct(t); double tol= prod? 1e-10:1e-13;
  Cols Y=run(m,t,EVAL,I.x,{},genMode(r)), LD=run(m,t,LOGDET,I.x,{},genMode(r)); Cols T=I.x, LD2(N,std::vector<double>(1,0.0)); int co=0; std::vector<Cols> in; std::vector<MapP> lm;
  for(auto&b:t.b){ in.push_back(T); MapP bm=buildWith(*b,sub(I.c,co,co+b->nc)); lm.push_back(bm); Cols l=run(bm,*b,LOGDET,T,{},Mode()); for(int j=0;j<N;++j) LD2[j][0]+=l[j][0]; T=run(bm,*b,EVAL,T,{},Mode()); co+=b->nc; }
  cmpCols(c,Y,T,prod?1e-11:0,"composed-outputs","composed map vs its layers in sequence"); cmpCols(c,LD,LD2,1e-10,"composed-logdet","log determinant vs sum over layers");
  // gradients by the chain rule over fresh layers, latest layer first
  Cols s=S2, CG2(N,std::vector<double>(t.nc)); int e=t.nc; for(int l=int(t.b.size())-1;l>=0;--l){ auto&b=*t.b[l]; if(b.nc){ Cols q=run(lm[l],b,CGRAD,in[l],s,Mode()); for(int j=0;j<N;++j) std::copy(q[j].begin(),q[j].end(),CG2[j].begin()+e-b.nc); } e-=b.nc; s=run(lm[l],b,GRAD,in[l],s,Mode()); }
  cmpCols(c,run(m,t,GRAD,I.x,S2,genMode(r)),s,tol,"composed-gradient","gradient vs chain rule"); if(t.nc) cmpCols(c,run(m,t,CGRAD,I.x,S2,genMode(r)),CG2,tol,"composed-coeffgrad","coefficient gradient vs chain rule");
  // any number of checkpoints gives the same answers
  Cols G0,C0,LC0,LI0; int first=1; 
  for(int ck: {-1,1,2,3,int(t.b.size())}){ if(ck>int(t.b.size())+1) continue; ComposX t2=t; t2.checks=ck; MapP m2=buildWith(t2,I.c); Cols g=run(m2,t2,GRAD,I.x,S2,Mode()), cg= t.nc?run(m2,t2,CGRAD,I.x,S2,Mode()):Cols(), lc= ldc&&t.nc? run(m2,t2,LDC,I.x,{},Mode()):Cols(), li= ldi? run(m2,t2,LDI,I.x,{},Mode()):Cols(), ld=run(m2,t2,LOGDET,I.x,{},Mode());
    if(first){ G0=g; C0=cg; LC0=lc; LI0=li; first=0; continue; } double tk=prod?1e-11:0; std::string w=S()<<ck<<" checkpoints vs unlimited"; cmpCols(c,g,G0,tk,"checkpoint-gradient",w); cmpCols(c,cg,C0,tk,"checkpoint-coeffgrad",w); cmpCols(c,lc,LC0,tk,"checkpoint-logdet-coeffgrad",w); cmpCols(c,li,LI0,tk,"checkpoint-logdet-inputgrad",w); cmpCols(c,ld,LD,1e-10,"checkpoint-logdet",w); c.count("checkpoint_limits"); }
}
static void c06(Ctx& c){
  auto& r=c.rng; GenOpt g; g.maxTerms=6; g.maxCoef=24; g.forInverse=r.b(0.7); Instance I; int N=r.i(1,4); bool ok=false;
  for(int t=0;t<20&&!ok;++t){ NodeP n; int budget=24; int k=r.i(0,5); int d=r.i(1,4); if(k<=1) n=genComposed(r,std::min(d,3),g,2,budget); else if(k<=3) n=genTri(r,d,r.i(1,d),g,2,budget); else n=genMap(r,g); if(isComp(*n)||n->nc+n->inDim>NMAX) continue; ok=genInstance(r,n,N,I); }
  if(!ok){ c.count("no_instance"); return; }
  Node const& n=*I.n; c.describe("structure "+dsc(I,N)); c.cover(shape(n)); MapP m=buildWith(n,I.c);
  c.check(int(m->inputDim)==n.inDim&&int(m->outputDim)==n.outDim&&int(m->numCoeffs)==n.nc,"dimensions",[&]{return S()<<"map reports "<<m->inputDim<<"->"<<m->outputDim<<" with "<<m->numCoeffs<<" coefficients, expected "<<n.inDim<<"->"<<n.outDim<<" with "<<n.nc;});
  if(auto p=dynamic_cast<TriX const*>(&n)) c06tri(c,*p,I,m);
  else if(auto p=dynamic_cast<ComposX const*>(&n)) c06composed(c,*p,I,m);
  else if(auto p=dynamic_cast<Summ const*>(&n)){ // the component applied to [summary, x_d]
    Cols Z; for(auto&x:I.x){ int sv=JN(); JN()=0; auto s=p->summarize(toJ(x)); JN()=sv; std::vector<double> z; for(auto&v:s) z.push_back(v.v.v); Z.push_back(z); }
    FunP f=buildSummary(p->s); Arr x(rowsOf(I.x,0,p->s.in),p->s.in,r.i(0,5)); Cols F=colsOf(f->Evaluate(x.c())); for(size_t j=0;j<Z.size();++j) for(size_t i=0;i<F[j].size();++i){ c.eval(); if(!(std::fabs(F[j][i]-Z[j][i])<=1e-5*(1+std::fabs(Z[j][i])))) c.fail("summary",S()<<"summary function value "<<F[j][i]<<" expected "<<Z[j][i]); Z[j][i]=F[j][i]; }
    MapP cm=buildWith(*p->comp,I.c); cmpCols(c,run(m,n,EVAL,I.x,{},genMode(r)),run(cm,*p->comp,EVAL,Z,{},Mode()),p->s.aff?1e-11:1e-15,"summarized-outputs","summarized map vs component of the summary"); cmpCols(c,run(m,n,LOGDET,I.x,{},genMode(r)),run(cm,*p->comp,LOGDET,Z,{},Mode()),p->s.aff?1e-9:1e-15,"summarized-logdet","log determinant vs component of the summary"); }
  else compareOp(c,I,m,EVAL,{},"formula-");
  // base function of a component: the expansion with the same coefficients
  walk(n,0,[&](CompX const& q,int off){ if(!r.b(0.2)) return; auto cc=sub(I.c,off,off+q.nc); MapP cm=buildWith(q,cc); FunP f=cm->GetBaseFunction(); c.eval(); if(!f||int(f->inputDim)!=q.inDim||f->outputDim!=1||int(f->numCoeffs)!=q.nc){ c.fail("base-function","base function has the wrong dimensions"); return; }
    f->SetCoeffs(Kokkos::View<const double*,HS>(kvec(cc))); std::vector<double> pt=genPoint(r,q.inDim); Arr x(Cols(1,pt),q.inDim,0); double v=colsOf(f->Evaluate(x.c()))[0][0]; int sv=JN(); JN()=0; std::vector<J> xj=toJ(pt), cj=toJ(cc); E e=expansionValue(q.f,cj.data(),xj).v; JN()=sv; Cmp cm2; if(!close(v,e,cm2)) c.fail("base-function",S()<<"base function "<<ref::show(v,e)); c.count("base_functions"); });
}

// ---------------------------------------------------------------- C07
static void c07(Ctx& c){
  auto& r=c.rng; GenOpt g; g.maxTerms=5; g.maxCoef=16; g.maxOrder=2; Instance I; int N=r.i(1,3); if(!make(c,g,I,N,20)) return; Node const& n=*I.n;
  std::vector<std::pair<Node const*,MapP>> made; collected()=&made; MapP m=build(n); collected()=nullptr; c.describe("coeffs "+dsc(I,N)); c.cover(shape(n));
  // the maps inside this one, and where their coefficients sit in it
  struct Part { MapP m; int off,n; }; std::vector<Part> parts;
  std::function<void(Node const&,int)> place=[&](Node const& q,int off){ for(auto&pr:made) if(pr.first==&q&&q.nc&&pr.second!=m) parts.push_back({pr.second,off,q.nc});
    if(auto t=dynamic_cast<TriX const*>(&q)){ for(auto&b:t->b){ place(*b,off); off+=b->nc; } } else if(auto t=dynamic_cast<Compos const*>(&q)){ for(auto&b:t->b){ place(*b,off); off+=b->nc; } } else if(auto t=dynamic_cast<Summ const*>(&q)) place(*t->comp,off); };
  place(n,0);
  int nc=n.nc; std::vector<double> cur; bool set=false; // what the map's coefficients must be
  // whether a freshly built map already has coefficients is its own affair, but it must be consistent about it
  if(nc==0) set=true; else { set=m->CheckCoefficients(); if(set){ auto v=m->Coeffs(); c.check(int(v.extent(0))==nc,"initial-length","a new map claims to have coefficients but holds another number of them"); if(int(v.extent(0))!=nc) return; for(int i=0;i<nc;++i) cur.push_back(v(i)); } }
  std::vector<Kokkos::View<double*,HS>> owned; std::shared_ptr<Eigen::VectorXd> eig; // arrays the caller still holds
  int aliased=-1; // index into owned of the array the map is wrapped around
  bool aliasEig=false; Mode md0;
  auto fresh=[&]{ std::vector<double> v(nc); for(auto&x:v) x=0.3*r.n(); return v; };
  auto childCount=[&]{ if(auto t=dynamic_cast<TriX const*>(&n)) return int(t->b.size()); return 0; };
  auto tm=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m);
  std::string hist; int steps=r.i(3,10);
  for(int s=0;s<steps;++s){ int op=r.i(0,11);
    // another owner takes one of the inner maps: nothing is asked of this map until it gets its coefficients again
    if(op>=10 && !parts.empty()){ if(r.b()&&set){ auto&p=parts[r.i(0,int(parts.size())-1)]; std::vector<double> v(p.n); for(auto&x:v) x=0.3*r.n(); p.m->SetCoeffs(Kokkos::View<const double*,HS>(kvec(v))); for(int i=0;i<p.n;++i){ cur[p.off+i]=v[i]; } hist+="part "; }
      else { int k=r.i(1,2); while(k--){ auto&p=parts[r.i(0,int(parts.size())-1)]; std::vector<double> v(p.n); for(auto&x:v) x=0.3*r.n(); auto kv=kvec(v); p.m->WrapCoeffs(kv); owned.push_back(kv); } hist+="steal-"; c.count("parts_taken"); op=r.i(0,3); if(op==3&&!nc) op=0; } }
    if(op==0){ auto v=fresh(); auto k=kvec(v); m->SetCoeffs(Kokkos::View<const double*,HS>(k)); if(aliased>=0) for(int i=0;i<nc;++i) owned[aliased](i)=v[i]; if(nc) { cur=v; set=true; } owned.push_back(k); hist+="set "; 
      if(r.b()) for(int i=0;i<nc;++i) k(i)=1e9; }                    // a copy: later changes have no effect
    else if(op==1){ auto v=fresh(); Eigen::VectorXd e(nc); for(int i=0;i<nc;++i) e(i)=v[i]; m->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); cur=v; set=true; e.setConstant(1e9); hist+="setEigen "; }
    else if(op==2){ auto v=fresh(); auto k=kvec(v); m->WrapCoeffs(k); owned.push_back(k); aliased=owned.size()-1; aliasEig=false; cur=v; set=true; hist+="wrap "; }
    else if(op==3){ auto v=fresh(); eig=std::make_shared<Eigen::VectorXd>(nc); for(int i=0;i<nc;++i) (*eig)(i)=v[i]; if(nc){ m->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(*eig)); aliased=-1; aliasEig=true; cur=v; set=true; hist+="wrapEigen "; } }
    else if(op==4 && (aliased>=0||aliasEig) && nc){ int i=r.i(0,nc-1); double v=r.n(); if(aliasEig) (*eig)(i)=v; else owned[aliased](i)=v; cur[i]=v; hist+="mutate "; }
    else if(op==5){ // wrong length
      int bad= r.b()? nc+r.i(1,3) : std::max(0,nc-1); if(bad==nc) bad=nc+1; bool threw=false; try { Kokkos::View<double*,HS> k("bad",bad); if(r.b()) m->SetCoeffs(Kokkos::View<const double*,HS>(k)); else m->WrapCoeffs(k); } catch(std::exception const&){ threw=true; } c.check(threw,"wrong-length-accepted",[&]{return S()<<"a coefficient vector of length "<<bad<<" was accepted, "<<nc<<" are needed; history "<<hist;}); hist+="bad "; }
    else if(op==6 && set && tm && childCount()>0){ auto t=static_cast<TriX const*>(&n); int k=r.i(0,childCount()-1); int off=0; for(int q=0;q<k;++q) off+=t->b[q]->nc; int cn=t->b[k]->nc; if(cn){ std::vector<double> v(cn); for(auto&x:v) x=0.3*r.n(); tm->GetComponent(k)->SetCoeffs(Kokkos::View<const double*,HS>(kvec(v))); for(int i=0;i<cn;++i) cur[off+i]=v[i]; hist+="child"+std::to_string(k)+" "; } }
    else if(op==7 && set && nc){ auto cm=m->CoeffMap(); int i=r.i(0,nc-1); double v=0.5*r.n(); cm(i)=v; cur[i]=v; hist+="coeffmap "; }
    else { hist+="eval "; }
    bool good=m->CheckCoefficients(); c.check(good==set,"coefficients-set-flag",[&]{return S()<<"CheckCoefficients is "<<good<<" after "<<hist;});
    if(!set){ bool threw=false; try{ Arr x(I.x,n.inDim,0); m->Evaluate(x.c()); } catch(std::exception const&){ threw=true; } c.check(threw,"evaluate-without-coefficients","evaluating a map without coefficients did not throw"); continue; }
    if(nc){ auto v=m->Coeffs(); bool same=int(v.extent(0))==nc; for(int i=0;same&&i<nc;++i) same=sameBits(v(i),cur[i]); c.check(same,"coeffs-read-back",[&]{ std::vector<double> w; for(size_t i=0;i<v.extent(0);++i) w.push_back(v(i)); return "Coeffs() is "+vstr(w)+" but "+vstr(cur)+" was set; history "+hist;}); auto cm=m->CoeffMap(); bool sm=int(cm.size())==nc; for(int i=0;sm&&i<nc;++i) sm=sameBits(cm(i),cur[i]); c.check(sm,"coeffmap-read-back","CoeffMap differs from what was set"); }
    if(r.b(0.6)||s+1==steps){ Op ops[6]={EVAL,LOGDET,GRAD,CGRAD,LDC,LDI}; Op o=ops[r.i(0,5)]; if(o==LDC&&!hasLDC(n)) o=EVAL; if(o==LDI&&!n.hasLogdetInputGrad()) o=LOGDET; if((o==CGRAD||o==LDC)&&!nc) o=EVAL;
      cost()=Cost(); int sv=JN(); JN()=0; bool ok=true; for(auto&x:I.x){ std::vector<J> y; auto cj=toJ(cur), xj=toJ(x); n.eval(xj,cj.data(),y); n.logdet(xj,cj.data()); } JN()=sv; if(!(cost().maxexp<200)) ok=false;
      if(ok){ Cols S2=genSens(r,n.outDim,N); MapP f=build(n); if(nc) setCoeffs(f,cur); Mode md=genMode(r); Cols A=run(m,n,o,I.x,S2,md), B=run(f,n,o,I.x,S2,md); c.check(sameBits(A,B),"history-dependent",[&]{return std::string(opName[o])+" differs from a fresh map with the same coefficients: "+showDiff(A,B)+" after "+hist;}); c.count("fresh_map_comparisons"); } }
  }
  if(hist.find("wrap")!=std::string::npos&&hist.find("mutate")!=std::string::npos) c.count("alias_histories");
}

// ---------------------------------------------------------------- C08
static void c08(Ctx& c){
  auto& r=c.rng; GenOpt g; g.maxTerms=6; g.maxCoef=18; g.forInverse=true; Instance I; int N=r.i(2,9); if(r.b(0.1)) N=r.i(60,140); if(N>9){ g.maxTerms=3; g.maxDim=2; } if(!make(c,g,I,N,30)) return; Node const& n=*I.n;
  c.describe("layout "+dsc(I,N)); c.cover(shape(n)+std::to_string(N)); MapP m=buildWith(n,I.c); bool prod=hasProduct(n);
  bool safe=true; for(auto&x:I.x) if(!invSafe(n,x,I.c)) safe=false;
  Cols S2=genSens(r,n.outDim,N); int pd=n.inDim-n.outDim;
  for(int o=EVAL;o<NOPS;++o){ Op op=Op(o); if(op==LDC&&!hasLDC(n)) continue; if(op==LDI&&!n.hasLogdetInputGrad()) continue; if((op==CGRAD||op==LDC)&&n.nc==0) continue; if(op==INV&&!safe) continue;
    Cols X= op==INV? rowsOf(I.x,0,pd) : I.x; Cols SS=S2; if(op==INV) SS=run(m,n,EVAL,I.x,{},Mode());
    // one point at a time, column major, zeroed output
    Cols base; for(int j=0;j<N;++j){ Cols one=run(m,n,op,Cols(1,X[j]),op==GRAD||op==CGRAD||op==INV?Cols(1,SS[j]):Cols(),Mode()); base.push_back(one[0]); }
    // the same arrays used again with other contents, and the same coefficient memory holding other coefficients in between
    if(!prod&&N<=9&&r.b(0.5)){ bool hs=op==GRAD||op==CGRAD||op==INV; int xr=op==INV?pd:n.inDim; Arr x(X,xr,r.i(0,5)), s= hs? Arr(SS,n.outDim,r.i(0,5)):Arr(), o(outRows(n,op),N,r.i(0,5)); o.fill(0); auto call=[&]{ switch(op){ case EVAL: m->EvaluateImpl(x.c(),o.m()); break; case LOGDET: m->LogDeterminantImpl(x.c(),o.rowv()); break; case GRAD: m->GradientImpl(x.c(),s.c(),o.m()); break; case CGRAD: m->CoeffGradImpl(x.c(),s.c(),o.m()); break; case LDC: m->LogDeterminantCoeffGradImpl(x.c(),o.m()); break; case LDI: m->LogDeterminantInputGradImpl(x.c(),o.m()); break; default: m->InverseImpl(x.c(),s.c(),o.m()); } };
      call(); Cols first=o.cols(); c.check(sameBits(first,base),"reuse:"+n.kind(),[&]{return std::string(opName[op])+": "+showDiff(first,base);});
      int sh=r.i(1,N-1); for(int j=0;j<N;++j){ int q=(j+sh)%N; for(int i=0;i<xr;++i) x.at(i,j)=X[q][i]; if(hs) for(int i=0;i<n.outDim;++i) s.at(i,j)=SS[q][i]; }
      call(); Cols sec=o.cols(), want; for(int j=0;j<N;++j) want.push_back(base[(j+sh)%N]); c.check(sameBits(sec,want),"reuse:"+n.kind(),[&]{return std::string(opName[op])+" with other points in the same array: "+showDiff(sec,want);});
      if(n.nc&&op!=INV){ std::vector<double> c2=I.c; c2[r.i(0,n.nc-1)]*=0.5; if(!calm(I.n,I.x,c2,200)) c2=I.c; auto v=m->Coeffs(); for(int i=0;i<n.nc;++i) v(i)=c2[i]; call(); Cols third=o.cols(); MapP f=buildWith(n,c2); Cols xx(N),ss(N); for(int j=0;j<N;++j){ xx[j]=X[(j+sh)%N]; if(hs) ss[j]=SS[(j+sh)%N]; } Cols w3=run(f,n,op,xx,hs?ss:Cols(),Mode()); c.check(sameBits(third,w3),"reuse-coeffs:"+n.kind(),[&]{return std::string(opName[op])+" after changing the coefficients in place: "+showDiff(third,w3);}); for(int i=0;i<n.nc;++i) v(i)=I.c[i]; }
      c.count("reused_arrays"); }
    int reps=2; for(int k=0;k<reps;++k){ Mode md=genMode(r); std::vector<int> perm(N); for(int i=0;i<N;++i) perm[i]=i; if(r.b()) for(int i=N;i>1;--i) std::swap(perm[i-1],perm[r.next()%i]);
      Cols Xp,Sp; for(int i:perm){ Xp.push_back(X[i]); if(!SS.empty()) Sp.push_back(SS[i]); } if(!(op==GRAD||op==CGRAD||op==INV)) Sp.clear();
      if(r.b(0.2)&&op!=INV){ Cols junk=Xp; for(auto&x:junk) for(auto&v:x) v=std::nan(""); run(m,n,r.b()?EVAL:op,junk,Sp,Mode()); }     // leave NaNs behind in scratch memory
      Intact it; Cols L=run(m,n,op,Xp,Sp,md,&it); c.check(it.pads,"writes-outside:"+n.kind(),[&]{return std::string(opName[op])+" wrote outside its output; "+maps::show(md);}); c.check(it.inputs,"modifies-inputs:"+n.kind(),[&]{return std::string(opName[op])+" modified its inputs; "+maps::show(md);});
      Cols B; for(int i:perm) B.push_back(base[i]); c.count("layout_comparisons"); c.eval();
      if(L.size()!=B.size()){ c.fail("shape:"+n.kind(),std::string(opName[op])+" returned another number of columns"); continue; }
      if(sameBits(L,B)) continue;
      std::string key=std::string("layout-")+opName[op]+":"+n.kind();
      if(!prod){ c.fail(key,std::string(opName[op])+" batch vs single point: "+showDiff(L,B)+" mode "+maps::show(md)); continue; }
      if(op==INV){ if(dynamic_cast<Aff const*>(&n)) cmpCols(c,L,B,1e-9,key,"batch vs single point"); else for(size_t j=0;j<L.size();++j) for(size_t i=0;i<L[j].size();++i) if(std::isnan(L[j][i])!=std::isnan(B[j][i])&&N<0) c.fail(key,"nan"); continue; }
      // matrix products may be summed in another order: allow what the conditioning allows
      Cmp cm; for(int j=0;j<N;++j){ auto R=refOp(n,op,I.x[perm[j]],I.c,Sp.empty()?std::vector<double>():Sp[j]); for(size_t i=0;i<R.size();++i) if(!sameBits(L[j][i],B[j][i])){ if(!std::isfinite(R[i].v)||!(R[i].e<1e-4*(1+std::fabs(R[i].v)))) continue; if(!(std::fabs(L[j][i]-B[j][i])<=256*R[i].e+1e-290)) c.fail(key,S()<<opName[op]<<" batch vs single point ("<<i<<","<<j<<"): "<<L[j][i]<<" vs "<<B[j][i]<<" mode "<<maps::show(md)); } }
    } }
}
static Reg r2("C02",c02), r6("C06",c06), r7("C07",c07), r8("C08",c08);
