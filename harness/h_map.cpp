// Maps against the independent reference: C01-C08, C10.
#include "maps.h"
using namespace maps;

static std::string dsc(Instance const& I,int N){ return descr(*I.n)+" N="+std::to_string(N)+" c="+vstr(I.c)+" x0="+vstr(I.x.empty()?std::vector<double>():I.x[0]); }
static bool make(Ctx& c,GenOpt const& g,Instance& I,int N,double maxExp=40){
  for(int t=0;t<20;++t){ NodeP n=genMap(c.rng,g); if(genInstance(c.rng,n,N,I,maxExp)) return true; c.count("regenerated"); }
  c.count("no_instance"); return false; }
static void compareOp(Ctx& c,Instance const& I,MapP m,Op op,Cols const& sens,std::string const& pre,double C=64){
  Mode md=genMode(c.rng); Cols L; Intact it;
  L=run(m,*I.n,op,I.x,sens,md,&it);
  Cmp cm; int bad=0; 
  if(L.size()!=I.x.size()){ c.fail(pre+"shape:"+I.n->kind(),"wrong number of columns"); return; }
  for(size_t j=0;j<I.x.size();++j){ auto R=refOp(*I.n,op,I.x[j],I.c,sens.empty()?std::vector<double>():sens[j]);
    for(size_t i=0;i<R.size();++i){ c.eval(); if(!close(L[j][i],R[i],cm,C) && ++bad<=2) c.fail(pre+opName[op]+":"+I.n->kind(), S()<<opName[op]<<" entry ("<<i<<","<<j<<") "<<ref::show(L[j][i],R[i])<<" mode "<<show(md)); } }
  c.count(std::string("compared_")+opName[op],cm.done); c.count("ill_conditioned_skipped",cm.skipped);
  if(c.rng.b(0.08)){ // the same points, many times over: the columns of a long batch
    int M=c.rng.pick({12,16,17,33,64,65,100,129,257,300,513}), N=I.x.size(); std::vector<int> who(M); Cols X,S2; for(auto&w:who){ w=c.rng.i(0,N-1); X.push_back(I.x[w]); if(!sens.empty()) S2.push_back(sens[w]); }
    Mode m2=genMode(c.rng); Cols B=run(m,*I.n,op,X,S2,m2); c.count("long_batches"); bool shown=false; if(B.size()!=X.size()){ c.fail(pre+"shape:"+I.n->kind(),"wrong number of columns"); return; }
    std::vector<std::vector<E>> R(N); Cmp c2;
    for(int j=0;j<M&&!shown;++j) if(!arr::sameBits(Cols(1,B[j]),Cols(1,L[who[j]]))){ auto& q=R[who[j]]; if(q.empty()) q=refOp(*I.n,op,I.x[who[j]],I.c,sens.empty()?std::vector<double>():sens[who[j]]); for(size_t i=0;i<q.size()&&!shown;++i) if(!close(B[j][i],q[i],c2,C)){ shown=true; c.fail(pre+opName[op]+":"+I.n->kind(), S()<<opName[op]<<" entry ("<<i<<","<<j<<") of a batch of "<<M<<": "<<ref::show(B[j][i],q[i])<<" mode "<<show(m2)); } } }
  c.check(it.pads,pre+"writes-outside",[&]{return std::string(opName[op])+" wrote outside its output array; "+show(md);});
}

// ---------------------------------------------------------------- C03
static void c03(Ctx& c){
  auto& r=c.rng; GenOpt g; g.tightTol=r.b(0.7); g.maxCoef=40; if(r.b(0.15)) g.maxOrder=r.i(5,9); Instance I; int N=r.i(1,5);
  int budget=30; (void)budget; NodeP n;
  bool ok=false; for(int t=0;t<20&&!ok;++t){ n= r.b(0.8)? NodeP(genComp(r,r.i(1,5),g,14)) : NodeP(genFactoryTri(r,r.i(1,3),1,g)); if(n->nc+n->inDim>NMAX) continue; ok=genInstance(r,n,N,I); } if(!ok){ c.count("no_instance"); return; }
  if(r.b(0.15)) for(auto&x:I.x) x.back()=0.0;
  c.describe("component "+dsc(I,N)); c.cover(shape(*n)); 
  MapP m=buildWith(*n,I.c); compareOp(c,I,m,EVAL,{},"value-");
  // the definition, with an independent integration rule
  CompX const* cx=dynamic_cast<CompX const*>(n.get()); std::vector<NodeP> keep; if(!cx) cx=static_cast<CompX const*>(static_cast<TriX const&>(*n).b[0].get());
  Cols L=run(m,*n,EVAL,I.x,{},Mode());
  for(int j=0;j<N;++j){ double sc; double ex=cx->exact(I.x[j],I.c,sc); if(!std::isfinite(ex)) continue;
    double xd=I.x[j].back(); bool kink=cx->f.basis.lin && ((cx->f.basis.lb>std::min(0.0,xd)&&cx->f.basis.lb<std::max(0.0,xd))||(cx->f.basis.ub>std::min(0.0,xd)&&cx->f.basis.ub<std::max(0.0,xd)));
    if(cx->q.type==0){ if(cx->q.pts<10||kink||std::fabs(xd)>1.0) continue; double e=std::fabs(L[j][0]-ex); // a high order rule on a short smooth interval is close to the integral
      c.check(e<=0.05*(1+sc),"definition-CC",[&]{return S()<<"value "<<L[j][0]<<" but definition gives "<<ex;}); c.count("definition_checks"); continue; }
    double tol=cx->q.abs+cx->q.rel*sc; double e=std::fabs(L[j][0]-ex); c.count("definition_checks");
    double lim=(cx->q.type==1?3e3:3e3)*tol+1e-8*(1+sc)+ (tol>1e-6? 1e-2*(1+sc):0);
    static double worst=0; if(e/tol>worst&&e>1e-9){ worst=e/tol; if(c.verbose) std::cerr<<"ratio "<<worst<<" "<<c.desc<<"\n"; }
    c.check(e<=lim,"definition:"+std::to_string(cx->q.type),[&]{return S()<<"value "<<L[j][0]<<" but the definition gives "<<ex<<" (difference "<<e<<", requested tolerance "<<tol<<")";}); }
}
// ---------------------------------------------------------------- C01
static void c01(Ctx& c){
  auto& r=c.rng; GenOpt g; Instance I; int N=r.i(1,5); if(!make(c,g,I,N)) return; c.describe("logdet "+dsc(I,N)); c.cover(shape(*I.n));
  MapP m=buildWith(*I.n,I.c); compareOp(c,I,m,LOGDET,{},"");
  // finite wherever the reference says so, whatever its conditioning
  Cols L=run(m,*I.n,LOGDET,I.x,{},genMode(r));
  for(int j=0;j<N;++j){ auto R=refOp(*I.n,LOGDET,I.x[j],I.c,{}); if(std::isfinite(R[0].v)&&R[0].e<1) c.check(std::isfinite(L[j][0]),"logdet-not-finite:"+I.n->kind(),[&]{return S()<<"LogDeterminant "<<L[j][0]<<" expected "<<R[0].v;}); }
  // strictly increasing: blocks of a triangular map in their own input, over increasing last inputs
  std::vector<std::pair<NodeP,int>> comps; 
  std::function<void(NodeP,int)> coll=[&](NodeP n,int off){ if(dynamic_cast<CompX*>(n.get())) comps.push_back({n,off}); else if(auto t=dynamic_cast<TriX*>(n.get())) for(auto&b:t->b){ coll(b,off); off+=b->nc; } else if(auto s=dynamic_cast<Summ*>(n.get())) coll(s->comp,off); };
  coll(I.n,0); int done=0;
  for(auto&p:comps){ if(++done>2) break; auto cx=static_cast<CompX const*>(p.first.get()); if(cx->q.type==0) continue;
    std::vector<double> cc(I.c.begin()+p.second,I.c.begin()+p.second+p.first->nc); MapP cm=buildWith(*p.first,cc);
    Instance K; K.n=p.first; K.c=cc; auto base=genPoint(r,p.first->inDim); std::vector<double> ts; int T=r.i(3,8); double sp=r.pick({1e-3,0.1,1.0,3.0}); for(int k=0;k<T;++k) ts.push_back(r.b(0.1)?0.0:sp*r.n()); std::sort(ts.begin(),ts.end());
    Cols X; for(double t:ts){ auto q=base; q.back()=t; X.push_back(q);} 
    // stay away from overflow
    cost()=Cost(); bool ok=true; for(auto&x:X){ std::vector<J> y; int sv=JN(); JN()=0; auto xj=toJ(x), cj=toJ(cc); cx->eval(xj,cj.data(),y); JN()=sv; if(!(std::fabs(y[0].v.v)<1e8)) ok=false; } if(!ok||!(cost().maxexp<40)||cost().maxdf>1000||cost().evals>20000) continue;
    Cols V=run(cm,*p.first,EVAL,X,{},genMode(r));
    for(int k=0;k+1<T;++k){ double sc,sc2; double ea=cx->exact(X[k],cc,sc), eb=cx->exact(X[k+1],cc,sc2); double tol=1e4*(cx->q.abs+cx->q.rel*(sc+sc2))+1e-7*(sc+sc2);
      c.count("monotone_pairs"); double d=V[k+1][0]-V[k][0]; 
      c.check(d>=-tol,"not-increasing",[&]{return S()<<"T("<<ts[k]<<")="<<V[k][0]<<" but T("<<ts[k+1]<<")="<<V[k+1][0];});
      if(eb-ea>4*tol) c.check(d>0.5*(eb-ea)&&d<2*(eb-ea),"increase-amount",[&]{return S()<<"T("<<ts[k+1]<<")-T("<<ts[k]<<")="<<d<<" but the integral is "<<eb-ea;}); } }
}
// ---------------------------------------------------------------- C04, C05
struct FunSpec { int kind; std::shared_ptr<Aff> aff; Summary s; };
static void functions(Ctx& c,bool coeffs){
  auto& r=c.rng; int N=r.i(1,4); int in=r.i(1,4), out=r.i(1,3); Summary s; s.in=in; s.out=out;
  if(!coeffs && r.b(0.35)){ // affine function
    if(out>in) std::swap(in,out); s.in=in; s.out=out;
    auto a=std::make_shared<Aff>(); a->inDim=in; a->outDim=out; a->A.assign(out,std::vector<double>(in)); for(auto&w:a->A) for(auto&v:w) v=r.n(); a->bb.assign(out,0); for(auto&v:a->bb) v=r.n(); a->hasA=true; a->hasB=r.b(); if(in==out&&r.b(0.2)){ a->hasA=false; a->hasB=true; } s.aff=a;
  } else { s.ex=std::make_shared<Expansion>(); s.ex->basis.fam=Fam(r.i(0,2)); s.ex->basis.norm=r.b(); if(r.b(0.4)){ s.ex->basis.lin=true; s.ex->basis.lb=-r.u(0.2,2.5); s.ex->basis.ub=r.u(0.2,2.5);} s.ex->m=genMultis(r,in,std::min(12,40/out),5); s.ex->init(); s.exc=genCoeffs(r,out*s.ex->m.size(),1.0); }
  Cols X; for(int j=0;j<N;++j) X.push_back(genPoint(r,in)); Cols sens=genSens(r,out,N);
  c.describe(S()<<"function "<<(s.aff?"affine":"expansion")<<" "<<in<<"->"<<out<<(s.ex?gen::show(s.ex->m):"")<<" c="<<vstr(s.exc)<<" x0="<<vstr(X[0])); c.cover(S()<<"f"<<bool(s.aff)<<in<<out<<(s.ex?s.ex->basis.fam*4+s.ex->basis.norm*2+s.ex->basis.lin:0));
  FunP f=buildSummary(s); int nc=s.exc.size(); Arr x(X,in,r.i(0,5)), se(sens,out,r.i(0,5)), o(coeffs?nc:in,N,r.i(0,5)); o.fill(r.pick({0.0,1e300,std::nan("")}));
  if(r.b(0.7)){ if(coeffs) f->CoeffGradImpl(x.c(),se.c(),o.m()); else f->GradientImpl(x.c(),se.c(),o.m()); }
  else { auto v= coeffs? f->CoeffGrad(x.c(),se.c()) : f->Gradient(x.c(),se.c()); for(int i=0;i<o.R;++i) for(int j=0;j<N;++j) o.at(i,j)=v(i,j); }
  Cmp cm; int sv=JN();
  for(int j=0;j<N;++j){ JN()= coeffs? nc:in; std::vector<J> xj,cj,y; if(JN()>NMAX) break;
    for(int i=0;i<in;++i) xj.push_back(coeffs?J(X[j][i]):var(X[j][i],i)); for(int i=0;i<nc;++i) cj.push_back(coeffs?var(s.exc[i],i):J(s.exc[i]));
    if(s.aff) s.aff->eval(xj,nullptr,y); else { int T=s.ex->m.size(); for(int q=0;q<out;++q) y.push_back(expansionValue(*s.ex,cj.data()+q*T,xj)); }
    J t(0.0); for(int q=0;q<out;++q) t=t+sens[j][q]*y[q];
    for(int i=0;i<JN();++i){ c.eval(); if(!close(o.at(i,j),t.d(i),cm)) c.fail(std::string(coeffs?"CoeffGrad":"Gradient")+":"+(s.aff?"affine-function":"expansion"),S()<<"entry ("<<i<<","<<j<<") "<<ref::show(o.at(i,j),t.d(i))); } }
  JN()=sv; c.count("function_gradients",cm.done); c.count("ill_conditioned_skipped",cm.skipped);
}
static void c04(Ctx& c){
  auto& r=c.rng; if(r.b(0.12)){ functions(c,false); return; }
  GenOpt g; g.needLogdetInputGrad=r.b(0.6); g.maxTerms=9; g.maxCoef=24; Instance I; int N=r.i(1,4); if(!make(c,g,I,N)) return; c.describe("inputgrad "+dsc(I,N)); c.cover(shape(*I.n));
  MapP m=buildWith(*I.n,I.c); compareOp(c,I,m,GRAD,genSens(r,I.n->outDim,N),"",128);
  if(I.n->hasLogdetInputGrad()) compareOp(c,I,m,LDI,{},"",128);
}
// the coefficient gradient of a composition's log determinant needs the input gradients of its later layers
static bool hasLDC(Node const& n){
  if(auto p=dynamic_cast<Tri const*>(&n)){ for(auto&b:p->b) if(!hasLDC(*b)) return false; return true; }
  if(auto p=dynamic_cast<Compos const*>(&n)){ for(size_t k=0;k<p->b.size();++k) if(!hasLDC(*p->b[k])||!p->b[k]->hasLogdetInputGrad()) return false; return true; }
  return true; }
static void c05(Ctx& c){
  auto& r=c.rng; if(r.b(0.12)){ functions(c,true); return; }
  GenOpt g; g.maxTerms=9; g.maxCoef=24; Instance I; int N=r.i(1,4); if(!make(c,g,I,N)) return; c.describe("coeffgrad "+dsc(I,N)); c.cover(shape(*I.n));
  MapP m=buildWith(*I.n,I.c); compareOp(c,I,m,CGRAD,genSens(r,I.n->outDim,N),"",128); if(hasLDC(*I.n)) compareOp(c,I,m,LDC,{},"",128);
}
#include "h_map2.inc"
static Reg r1("C01",c01), r3("C03",c03), r4("C04",c04), r5("C05",c05);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
