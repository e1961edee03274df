// C11: save/load round trips compared bitwise, several objects per stream, truncated streams, unset coefficients.
#include "maps.h"
#include "invsafe.h"
#include "MParT/Utilities/Serialization.h"
#include <fstream>
using namespace maps;
typedef mpart::ParameterizedFunctionBase<HS> PF;
static std::string& tmpdir(){ static std::string d; return d; }
static bool sameVec(Kokkos::View<const double*,HS> a,Kokkos::View<const double*,HS> b){ if(a.extent(0)!=b.extent(0)) return false; for(size_t i=0;i<a.extent(0);++i) if(!sameBits(a(i),b(i))) return false; return true; }
static std::string save(MapP m,Ctx& c){ 
  if(c.rng.b(0.3)){ std::string f=tmpdir()+"/m.bin"; { std::ofstream o(f,std::ios::binary); m->Save(o); } std::ifstream i(f,std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)),std::istreambuf_iterator<char>()); c.count("files"); return s; }
  std::stringstream s; m->Save(s); return s.str(); }
static MapP load(std::string const& b,Ctx& c){ 
  if(c.rng.b(0.3)){ std::string f=tmpdir()+"/l.bin"; { std::ofstream o(f,std::ios::binary); o.write(b.data(),b.size()); } std::ifstream i(f,std::ios::binary); return std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(PF::Load(i)); }
  std::stringstream s(b); return std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(PF::Load(s)); }
static bool sameShape(Ctx& c,MapP a,MapP b,std::string const& w){ 
  if(!c.check(bool(b),"type",[&]{return w+": the loaded object is not a map";})) return false;
  return c.check(a->inputDim==b->inputDim&&a->outputDim==b->outputDim&&a->numCoeffs==b->numCoeffs,"dimensions",[&]{return w+": dimensions or number of coefficients differ";}); }
// every operation gives the same bits
static void sameMap(Ctx& c,Node const& n,MapP a,MapP b,Cols const& X,std::string const& w,bool inv){
  if(!sameShape(c,a,b,w)) return; int N=int(X.size()); Cols S=genSens(c.rng,n.outDim,N);
  c.check(a->CheckCoefficients()==b->CheckCoefficients(),"coefficients",[&]{return w+": CheckCoefficients differs";}); if(!a->CheckCoefficients()||!b->CheckCoefficients()) return;
  c.check(sameVec(a->Coeffs(),b->Coeffs()),"coefficients",[&]{return w+": coefficients differ";});
  for(int op=EVAL;op<=LDI;++op){ Cols A,B; std::string ea,eb; try{ A=run(a,n,Op(op),X,S,Mode()); }catch(std::exception const& e){ ea=e.what(); } try{ B=run(b,n,Op(op),X,S,Mode()); }catch(std::exception const& e){ eb=e.what(); }
    if(!ea.empty()||!eb.empty()){ c.check(ea==eb,std::string("exception-")+opName[op],[&]{return w+": "+opName[op]+" threw \""+ea+"\" before and \""+eb+"\" after";}); c.count("both_threw"); continue; }
    c.check(sameBits(A,B),opName[op],[&]{return w+": "+opName[op]+" differs after loading, "+showDiff(A,B);}); c.count(std::string("compared_")+opName[op]); }
  if(inv){ Cols Y=run(a,n,EVAL,X,S,Mode()),P; for(auto&x:X) P.push_back(std::vector<double>(x.begin(),x.begin()+n.inDim-n.outDim)); Cols A=run(a,n,INV,P,Y,Mode()),B=run(b,n,INV,P,Y,Mode()); c.check(sameBits(A,B),"Inverse",[&]{return w+": Inverse differs after loading, "+showDiff(A,B);}); c.count("compared_Inverse"); }
}
struct Obj { NodeP n; MapP m; Cols x; bool inv; std::string w; std::vector<double> c; };
static bool savable(Node const& n){ if(auto t=dynamic_cast<TriX const*>(&n)){ for(auto&b:t->b) if(!savable(*b)) return false; return true; } return dynamic_cast<CompX const*>(&n)!=nullptr; }
static Obj genObj(Ctx& c,bool& ok){ auto& r=c.rng; Obj o; GenOpt g; g.serializable=true; g.maxCoef=24; g.tightTol=r.b(); o.inv=g.forInverse=r.b(0.5); Instance I; ok=false;
  for(int t=0;t<20&&!ok;++t){ NodeP n=genMap(r,g); ok=genInstance(r,n,r.i(1,3),I,o.inv?20:40); if(ok&&!savable(*n)) ok=false; if(ok) o.n=n; } if(!ok) return o;
  o.m=build(*o.n); o.x=I.x; int how=r.i(0,5); 
  if(how==0) o.w="unset "; // nothing set: factory components start with coefficients, triangular maps may not
  else if(how==1){ // coefficients set on the children only
    if(auto t=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(o.m)){ int off=0; auto tx=std::static_pointer_cast<TriX>(o.n); for(size_t k=0;k<tx->b.size();++k){ auto b=tx->b[k]; auto ch=t->GetComponent(k); if(r.b(0.7)) setCoeffs(ch,std::vector<double>(I.c.begin()+off,I.c.begin()+off+b->nc)); off+=b->nc; } o.w="children "; } else { setCoeffs(o.m,I.c); } }
  else if(how==2){ auto k=kvec(I.c); o.m->WrapCoeffs(k); auto c2=I.c; for(auto&v:c2) if(r.b(0.2)) v*=0.5; if(calm(o.n,o.x,c2,200)){ I.c=c2; for(size_t i=0;i<c2.size();++i) k(i)=c2[i]; } o.w="wrapped "; }
  else { setCoeffs(o.m,I.c); if(r.b(0.3)){ auto c2=I.c; for(auto&v:c2) v*=0.7; if(calm(o.n,o.x,c2,200)) I.c=c2; setCoeffs(o.m,I.c); o.w="twice "; } }
  if(how==0&&o.m->CheckCoefficients()) o.inv=false; // whatever is in there
  if(how==1) o.inv=false;
  if(o.inv) for(auto&x:o.x) if(!invSafe(*o.n,x,I.c)) o.inv=false;
  o.w+=descr(*o.n)+" c="+vstr(I.c); o.c=I.c; return o; }
static void roundTrip(Ctx& c){ bool ok; Obj o=genObj(c,ok); if(!ok){ c.count("no_instance"); return; } c.describe("roundtrip "+o.w); c.cover("rt"+shape(*o.n)+o.w.substr(0,3)); auto& r=c.rng;
  MapP before=o.m; std::string b=save(o.m,c); MapP m2=load(b,c); sameMap(c,*o.n,o.m,m2,o.x,"loaded",o.inv); if(!m2) return; c.count("round_trips");
  if(auto t2=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m2)){ auto t1=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(o.m); auto tx=std::static_pointer_cast<TriX>(o.n); if(!tx->factory) for(size_t k=0;k<tx->b.size();++k){ Cols X; for(auto&x:o.x) X.push_back(std::vector<double>(x.begin(),x.begin()+tx->b[k]->inDim)); sameMap(c,*tx->b[k],t1->GetComponent(k),t2->GetComponent(k),X,"component "+std::to_string(k),false); } }
  // saving does not touch the object, a second generation is the same, and the copies are independent
  MapP m3=load(save(m2,c),c); sameMap(c,*o.n,o.m,m3,o.x,"second generation",o.inv);
  std::vector<double> nc=o.c; double sc=r.u(); for(auto&v:nc) v*=sc; Cols ref; bool had=o.m->CheckCoefficients(); if(had) ref=run(o.m,*o.n,EVAL,o.x,{},Mode());
  setCoeffs(m2,nc); if(had){ Cols now=run(o.m,*o.n,EVAL,o.x,{},Mode()); c.check(sameBits(ref,now),"independent",[&]{return std::string("changing the loaded map changed the saved one");}); }
  MapP fresh=build(*o.n); setCoeffs(fresh,nc); sameMap(c,*o.n,fresh,m2,o.x,"new coefficients in the loaded map",false);
  setCoeffs(o.m,nc); sameMap(c,*o.n,o.m,m2,o.x,"new coefficients in both maps",false);
  if(auto t2=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m2)){ o.m.reset(); fresh.reset(); auto s=run(m2,*o.n,EVAL,o.x,{},Mode()); (void)s; } }
static void sequence(Ctx& c){ auto& r=c.rng; int K=r.i(2,4); std::vector<Obj> os; std::stringstream s; std::string w="sequence"; for(int k=0;k<K;++k){ bool ok; Obj o=genObj(c,ok); if(!ok) return; w+=" | "+o.w; os.push_back(o); } c.describe(w); c.cover(w);
  std::vector<double> marks; for(auto&o:os){ o.m->Save(s); double d=r.n(); marks.push_back(d); s.write((char*)&d,8); }
  for(int k=0;k<K;++k){ auto m=std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(PF::Load(s)); double d=0; s.read((char*)&d,8); c.check(d==marks[k],"stream-position",[&]{return std::string("loading did not consume exactly what was saved");}); sameMap(c,*os[k].n,os[k].m,m,os[k].x,"object "+std::to_string(k),os[k].inv); } c.count("sequences"); }
static void truncated(Ctx& c){ auto& r=c.rng; bool ok; Obj o=genObj(c,ok); if(!ok) return; std::string b=save(o.m,c); c.describe("truncated "+o.w); c.cover("tr"+shape(*o.n)); int T=c.thorough?200:25;
  for(int t=0;t<T;++t){ size_t L= t==0?0: t==1? b.size()-1 : r.next()%b.size(); bool threw=false; try{ std::stringstream s(b.substr(0,L)); auto m=PF::Load(s); }catch(std::exception const&){ threw=true; } c.check(threw,"truncated",[&]{return "loading the first "+std::to_string(L)+" of "+std::to_string(b.size())+" bytes did not throw";}); c.count("truncations"); }
  MapP m=load(b,c); sameMap(c,*o.n,o.m,m,o.x,"loaded after failures",false); }
static void sets(Ctx& c){ auto& r=c.rng; int d=r.i(1,5); Multis ms=genMultis(r,d,14,5); bool dense=r.b(0.3); auto f=fixedSet(ms,dense); c.describe(std::string("set ")+(dense?"dense ":"")+gen::show(ms)); c.cover(c.desc); c.count("sets");
  std::stringstream s; { cereal::BinaryOutputArchive a(s); a(f); } std::string b=s.str(); mpart::FixedMultiIndexSet<HS> g; if(r.b()) g=fixedSet(genMultis(r,r.i(1,4),6,3),r.b()); { cereal::BinaryInputArchive a(s); a(g); }
  auto cmp=[&](mpart::FixedMultiIndexSet<HS>& p,mpart::FixedMultiIndexSet<HS>& q,const char* w){ c.check(p.Size()==q.Size()&&p.Length()==q.Length(),"set",[&]{return std::string(w)+": size, length or storage differ";}); if(p.Size()!=q.Size()) return; for(unsigned i=0;i<p.Size();++i) c.check(p.IndexToMulti(i)==q.IndexToMulti(i)&&q.IndexToMulti(i)==ms[i],"set",[&]{return std::string(w)+": term "+std::to_string(i)+" differs";});
    auto x=p.MaxDegrees(),y=q.MaxDegrees(); c.check(x.extent(0)==y.extent(0),"set",[&]{return std::string(w)+": MaxDegrees differ";}); for(size_t k=0;k<x.extent(0)&&k<y.extent(0);++k) c.check(x(k)==y(k),"set",[&]{return std::string(w)+": MaxDegrees differ";}); 
    if(!dense) for(auto&m:ms) c.check(p.MultiToIndex(m)==q.MultiToIndex(m),"set",[&]{return std::string(w)+": MultiToIndex differs";}); };
  cmp(f,g,"set"); for(int t=0;t<8;++t){ size_t L=r.next()%b.size(); bool threw=false; try{ std::stringstream q(b.substr(0,L)); cereal::BinaryInputArchive a(q); mpart::FixedMultiIndexSet<HS> h; a(h); }catch(std::exception const&){ threw=true; } c.check(threw,"truncated-set",[&]{return std::string("loading a truncated set did not throw");}); }
  // a component built on the loaded set is the same component
  auto cx=genComp(r,d,GenOpt(),4); cx->r=SOFTPLUS; cx->opts=toOptions(*cx); auto A=mpart::MapFactory::CreateComponent<HS>(f,cx->opts),B=mpart::MapFactory::CreateComponent<HS>(g,cx->opts); std::vector<double> co(A->numCoeffs); for(auto&v:co) v=0.01*r.n(); setCoeffs(A,co); if(c.check(A->numCoeffs==B->numCoeffs,"set",[&]{return std::string("component size");})){ setCoeffs(B,co); cx->f.m=ms; cx->nc=ms.size(); Cols X={genPoint(r,d),genPoint(r,d)}; sameMap(c,*cx,A,B,X,"component on the loaded set",false); } }
static void options(Ctx& c){ auto& r=c.rng; auto mk=[&]{ mpart::MapOptions o; o.basisType=mpart::BasisTypes(r.i(0,2)); o.posFuncType=mpart::PosFuncTypes(r.i(0,1)); o.quadType=mpart::QuadTypes(r.i(0,2)); o.basisLB=r.b()?-INF:r.n(); o.basisUB=r.b()?INF:r.n(); o.quadAbsTol=r.u(); o.quadRelTol=r.u(); o.quadMaxSub=r.i(0,1000); o.quadMinSub=r.i(0,1000); o.quadPts=r.i(0,1000); o.contDeriv=r.b(); o.basisNorm=r.b(); o.nugget=r.u(); return o; };
  auto o=mk(); mpart::MapOptions p; if(r.b()) p=mk(); c.describe("options"); std::stringstream s; { cereal::BinaryOutputArchive a(s); a(o); } { cereal::BinaryInputArchive a(s); a(p); } c.count("options"); c.cover(o.String());
  c.check(o.basisType==p.basisType&&o.posFuncType==p.posFuncType&&o.quadType==p.quadType&&o.basisLB==p.basisLB&&o.basisUB==p.basisUB&&o.quadAbsTol==p.quadAbsTol&&o.quadRelTol==p.quadRelTol&&o.quadMaxSub==p.quadMaxSub&&o.quadMinSub==p.quadMinSub&&o.quadPts==p.quadPts&&o.contDeriv==p.contDeriv&&o.basisNorm==p.basisNorm&&o.nugget==p.nugget,"options",[&]{return std::string("loaded options differ: ")+o.String()+" vs "+p.String();}); c.check(o==p&&o.String()==p.String(),"options",[&]{return std::string("loaded options compare unequal");});
  auto q=mk(); bool eq=o.basisType==q.basisType&&o.posFuncType==q.posFuncType&&o.quadType==q.quadType&&o.basisLB==q.basisLB&&o.basisUB==q.basisUB&&o.quadAbsTol==q.quadAbsTol&&o.quadRelTol==q.quadRelTol&&o.quadMaxSub==q.quadMaxSub&&o.quadMinSub==q.quadMinSub&&o.quadPts==q.quadPts&&o.contDeriv==q.contDeriv&&o.basisNorm==q.basisNorm&&o.nugget==q.nugget; c.check((o==q)==eq,"options",[&]{return std::string("operator== of different options");});
  // one field changed
  auto z=o; switch(r.i(0,12)){ case 0: z.basisType=mpart::BasisTypes((int(o.basisType)+1)%3); break; case 1: z.posFuncType=mpart::PosFuncTypes(1-int(o.posFuncType)); break; case 2: z.quadType=mpart::QuadTypes((int(o.quadType)+1)%3); break; case 3: z.basisLB=o.basisLB==0.5?1:0.5; break; case 4: z.basisUB=o.basisUB==0.5?1:0.5; break; case 5: z.quadAbsTol+=1; break; case 6: z.quadRelTol+=1; break; case 7: z.quadMaxSub++; break; case 8: z.quadMinSub++; break; case 9: z.quadPts++; break; case 10: z.contDeriv=!z.contDeriv; break; case 11: z.basisNorm=!z.basisNorm; break; default: z.nugget+=1; } c.check(!(o==z),"options",[&]{return std::string("options differing in one field compare equal");}); }
template<class V> static void viewT(Ctx& c,V v,const char* w){ std::stringstream s; { cereal::BinaryOutputArchive a(s); cereal::save(a,v); } V q; { cereal::BinaryInputArchive a(s); cereal::load(a,q); } bool ok=q.extent(0)==v.extent(0)&&q.extent(1)==v.extent(1)&&q.label()==v.label(); 
  if(ok&&v.size()) for(size_t i=0;i<v.size();++i) ok=ok&&std::memcmp(v.data()+i,q.data()+i,sizeof(*v.data()))==0; c.check(ok,"view",[&]{return std::string("a saved view differs after loading: ")+w;}); c.check(v.size()==0||q.data()!=v.data(),"view",[&]{return std::string("aliases");}); c.count("views"); }
static void views(Ctx& c){ auto& r=c.rng; int n=r.i(0,9),m=r.i(0,6); c.describe(S()<<"views "<<n<<"x"<<m); Kokkos::View<double*,HS> a("a name",n); for(int i=0;i<n;++i) a(i)=r.b(.1)?NAN:r.n(); viewT(c,a,"1-D double"); Kokkos::View<unsigned*,HS> u("",n); for(int i=0;i<n;++i) u(i)=r.next(); viewT(c,u,"1-D unsigned");
  Kokkos::View<double**,Kokkos::LayoutLeft,HS> L("L",n,m); for(int i=0;i<n;++i) for(int j=0;j<m;++j) L(i,j)=r.n(); viewT(c,L,"2-D left"); Kokkos::View<double**,Kokkos::LayoutRight,HS> R("R",n,m); for(int i=0;i<n;++i) for(int j=0;j<m;++j) R(i,j)=r.n(); viewT(c,R,"2-D right"); }
static void c11(Ctx& c){ switch(c.rng.i(0,9)){ case 0: case 1: case 2: case 3: case 4: roundTrip(c); break; case 5: sequence(c); break; case 6: truncated(c); break; case 7: sets(c); break; case 8: options(c); break; default: views(c); } }
static Reg r11("C11",c11);
int main(int argc,char** argv){ char t[]="/tmp/vserXXXXXX"; tmpdir()=mkdtemp(t); Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); unlink((tmpdir()+"/m.bin").c_str()); unlink((tmpdir()+"/l.bin").c_str()); rmdir(tmpdir().c_str()); return rc; }
