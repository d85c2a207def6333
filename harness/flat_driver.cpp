// Driver for spec/Flat.tla: flattening a mesh to tables (serial; with VH_PAR the
// domains are spread over the ranks).
#include "vh_mesh.hpp"
#ifdef VH_PAR
#include "vh_mpi.hpp"
#include "conduit_blueprint_mpi.hpp"
namespace bm=conduit::blueprint::mpi::mesh;
#define COMM ,MPI_COMM_WORLD
static int RK(){ return vh::wrank(); }
static int NR(){ return vh::wsize(); }
static std::vector<vh::J> all(const vh::J&x){ return vh::collect(x,MPI_COMM_WORLD); }
#else
namespace bm=conduit::blueprint::mesh;
#define COMM
static int RK(){ return 0; }
static int NR(){ return 1; }
static std::vector<vh::J> all(const vh::J&x){ return {x}; }
#endif
using namespace vh; using namespace conduit;
static const char*CN[3]={"u","v","w"};
// all numbers are quarters
static void put_q(Node&n,const std::string&t,const IV&v,Build&B){ int w=width_of(t); J h=J::arr(); for(long long x:v) h.push(J(is_float(t)?f_hex(t,x*4):le(x/4,w))); J j=leaf_j(t,h,0,w,"own"); layout_j(B.g,j,B.vary); build(n,j,B.A); }
static IV read_q(const Node&n,double scale){ IV v; if(!n.dtype().is_number()) return v; float64_accessor x=n.as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++){ double y=x[i]*scale; v.push_back(std::fabs(y)<1e9?(long long)std::floor(y+0.5):999999999); } return v; }
static void flat_coords(Node&c,const J&j,const J&ct,Build&B){ c["type"]=j["type"].s; static const char*L[3]={"i","j","k"};
  if(j["type"].s=="uniform"){ for(size_t i=0;i<j["dims"].size();i++){ if(ct.at(0).s=="float32") c["dims"][L[i]].set((int64)j["dims"].at(i).i); else c["dims"][L[i]].set((int32)j["dims"].at(i).i); } for(size_t i=0;i<j["org"].size();i++) put_q(c["origin"][j["ax"].at(i).s],ct.at(0).s,{j["org"].at(i).i},B); for(size_t i=0;i<j["sp"].size();i++) put_q(c["spacing"]["d"+j["ax"].at(i).s],ct.at(0).s,{j["sp"].at(i).i},B); return; }
  for(size_t i=0;i<j["v"].size();i++){ size_t k=j["rev"].b?j["v"].size()-1-i:i; put_q(c["values"][j["ax"].at(k).s],ct.at(k).s,ivec(j["v"].at(k)),B); } }
static void build_dom(Node&n,const J&d,Build&B,const std::string&cs){
  for(size_t k=0;k<d["tp"].size();k++){ const J&t=d["tp"].at(k); std::string cn=k?"c2":cs; flat_coords(n["coordsets"][cn],t["m"]["c"],t["ct"],B); build_topo(n["topologies"][t["n"].s],t["m"]["t"],cn,B); }
  const J&f=d["f"]; if(d["nofld"].b==false) n["fields"].set(DataType::object()); for(size_t i=0;i<f.size();i++){ const J&x=f.at(i); Node&q=n["fields"][x["n"].s]; if(x["a"].s.size()) q["association"]=x["a"].s; else q["basis"]="b"; q["topology"]=x["tp"].s; if(x["c"].size()==1&&!x["mc"].b) put_q(q["values"],x["t"].at(0).s,ivec(x["c"].at(0)),B); else for(size_t k=0;k<x["c"].size();k++) put_q(q["values"][CN[k]],x["t"].at(k).s,ivec(x["c"].at(k)),B); }
  if(d["id"].i>=0) n["state/domain_id"].set((int32)d["id"].i); }
static J table(const Node&o,const char*w){ J a=J::arr(); if(!o.has_child(w)||!o[w].has_child("values")) return a; const Node&v=o[w]["values"]; for(idx_t i=0;i<v.number_of_children();i++){ const Node&n=v.child(i); J x=J::obj(),cn=J::arr(),c=J::arr(); double sc=n.name()=="element_centers"?16384.0:4.0; bool fl=true,in=true; auto one=[&](const Node&q){ c.push(jints(read_q(q,sc))); fl&=q.dtype().is_floating_point(); in&=q.dtype().is_integer(); }; if(n.dtype().is_object()) for(idx_t k=0;k<n.number_of_children();k++){ cn.push(J(n.child(k).name())); one(n.child(k)); } else one(n); x.set("n",n.name()).set("cn",cn).set("k",fl?"f":in?"i":"?").set("c",c); a.push(x); } return a; }
static J exec(const J&op){
  Arena A; Build B(op["how"],A); Node mesh,opts,out; const J&D=op["doms"]; std::vector<int> mine; for(size_t i=0;i<D.size();i++) if((int)(op["own"].at(i).i%NR())==RK()) mine.push_back((int)i);
  std::vector<std::unique_ptr<Node>> keep; for(size_t i=0;i<D.size();i++){ keep.emplace_back(new Node); Node&x=*keep.back(); build_dom(x,D.at(i),B,op["cs"].s); if((int)(op["own"].at(i).i%NR())!=RK()) continue; Node&y=op["single"].b&&mine.size()==1?mesh:op["obj"].b?mesh["d"+std::to_string(i)]:mesh.append(); if(op["ext"].b) y.set_external(x); else y.set(x); }
  if(op["topo"].s.size()) opts["topology"]=op["topo"].s; if(op["fsel"].b){ opts["field_names"].set(DataType::list()); for(size_t i=0;i<op["flds"].size();i++) opts["field_names"].append().set(op["flds"].at(i).s); }
  if(op["fill"].s=="num") opts["fill_value"].set((float64)op["ff"].i/4.0); else if(op["fill"].s=="obj"){ if(op["hf"].b) opts["fill_value/float"].set((float32)op["ff"].i/4.0f); if(op["hi"].b) opts["fill_value/int"].set((int64)op["fi"].i/4); if(!op["hf"].b&&!op["hi"].b) opts["fill_value"].set(DataType::object()); }
  auto flag=[&](const char*n,const std::string&k){ long long v=op[k].i; if(v==2) return; if(op["how"]["vary"].b) opts[n].set((int8)v); else opts[n].set((int64)v); }; flag("add_domain_info","adi"); flag("add_element_centers","aec"); flag("add_vertex_locations","avl");
#ifdef VH_PAR
  flag("add_rank","ar"); if(op["root"].i>=0) opts["root"].set((int32)(op["root"].i%NR()));
#endif
  if(op["pre"].b) out["junk/values"]=1; std::string before=vtree(mesh).str()+vtree(opts).str(); const Node&cm=mesh; const Node&co=opts; J o=J::obj(); o.set("ok",true).set("err","");
  try{ bm::flatten(cm,co,out COMM); if(getenv("VH_WHY")) out.print(); o.set("src",vtree(mesh).str()+vtree(opts).str()==before).set("v",table(out,"vertex_data")).set("e",table(out,"element_data")).set("hv",out.has_child("vertex_data")).set("he",out.has_child("element_data")).set("nc",(long long)out.number_of_children()); if(out.number_of_children()){ Node info; o.set("ver",conduit::blueprint::verify("table",out,info)); } else o.set("ver",true); }
  catch(conduit::Error&e){ o.set("ok",false).set("err",e.message()); }
  std::vector<J> outs=all(o); J r=J::obj(); if(RK()==0){ J a=J::arr(); for(J&q:outs) a.push(q); r.set("ranks",a).set("n",NR()); } return r; }
// ------------------------------------------------------------ scenarios
static long long nelem(const J&m){ const J&t=m["t"],&c=m["c"]; if(t["type"].s=="points"){ if(c["type"].s=="explicit") return (long long)c["v"].at(0).size(); long long n=1; if(c["type"].s=="uniform") for(size_t i=0;i<c["dims"].size();i++) n*=c["dims"].at(i).i; else for(size_t i=0;i<c["v"].size();i++) n*=(long long)c["v"].at(i).size(); return n; } if(t["type"].s=="unstructured"){ if(t["sizes"].size()) return (long long)t["sizes"].size(); static const std::map<std::string,int> AR={{"point",1},{"line",2},{"tri",3},{"quad",4},{"tet",4},{"hex",8},{"wedge",6},{"pyramid",5}}; return (long long)t["conn"].size()/AR.at(t["shape"].s); } long long n=1; if(t["type"].s=="structured") for(size_t i=0;i<t["dims"].size();i++) n*=t["dims"].at(i).i; else if(c["type"].s=="uniform") for(size_t i=0;i<c["dims"].size();i++) n*=c["dims"].at(i).i-1; else for(size_t i=0;i<c["v"].size();i++) n*=(long long)c["v"].at(i).size()-1; return n; }
static long long npts(const J&c){ long long n=1; if(c["type"].s=="explicit") return (long long)c["v"].at(0).size(); if(c["type"].s=="uniform") for(size_t i=0;i<c["dims"].size();i++) n*=c["dims"].at(i).i; else for(size_t i=0;i<c["v"].size();i++) n*=(long long)c["v"].at(i).size(); return n; }
static J gen(Rng&g,const std::string&){
  J op=J::obj(); op.set("op","flat").set("how",rand_how(g)).set("pre",g.chance(20)).set("obj",g.chance(50)).set("ext",g.chance(30)).set("single",g.chance(50)); int nd=g.pick(std::vector<int>{1,1,2,2,3,4}); if(NR()>1) nd=g.range(1,5);
  bool two=g.chance(40),ids=g.chance(60); static const std::vector<std::string> FT={"float64","float32"},IT={"int32","int64","int8","int16","uint8","uint32","uint64"},ST={"int32","int64"};
  // dimension and axis names of each topology
  struct TS{ std::string n; int D; J ax; std::vector<J> m; std::vector<J> ct; }; std::vector<TS> ts; for(int k=0;k<(two?2:1);k++){ TS t; t.n=k?"other":"topo"; t.D=g.pick(std::vector<int>{1,2,2,3,3}); J ax=J::arr(); bool pol=g.chance(15); const char*N[4][3]={{"x","y","z"},{"x","y","z"},{"z","r",""},{"r","theta","phi"}}; for(int d=0;d<t.D;d++) ax.push(J(N[pol&&t.D>1?t.D:0][d])); t.ax=ax; bool mix=g.chance(25); std::string bt=g.pick(FT);
    for(int i=0;i<nd;i++){ MeshOpts O; O.kinds=all_kinds(); O.axes=false; O.unit=g.chance(50)?8:10; O.maxe=3; J m; do { m=rand_mesh(g,O); } while((int)m["c"]["ax"].size()!=t.D||nelem(m)>20); J c=m["c"]; c.set("ax",ax).set("rev",g.chance(10)); J ct=J::arr(); for(int d=0;d<t.D;d++) ct.push(J(mix?(g.chance(40)?g.pick(ST):g.pick(FT)):g.chance(90)?bt:g.pick(FT))); if(c["type"].s=="uniform"){ if(c["org"].size()==0){ IV z; for(int d=0;d<t.D;d++) z.push_back(g.range(-9,9)); c.set("org",jints(z)); } if(!is_float(ct.at(0).s)){ IV a=ivec(c["org"]),b=ivec(c["sp"]); for(auto&x:a) x*=4; for(auto&x:b) x*=4; c.set("org",jints(a)).set("sp",jints(b)); } IV sp=ivec(c["sp"]); if(sp.empty()) c.set("q1",true); }
      else { J v=J::arr(); for(int d=0;d<t.D;d++){ IV a=ivec(c["v"].at((size_t)d)); if(!is_float(ct.at((size_t)d).s)) for(auto&x:a) x*=4; v.push(jints(a)); } c.set("v",v); }
      if(c["type"].s=="uniform"&&c["sp"].size()==0){ IV s; for(int d=0;d<t.D;d++) s.push_back(4*g.range(1,3)); c.set("sp",jints(s)); }
      J tt=m["t"]; auto off=[&](const char*z,const char*o){ if(tt[z].size()&&tt[o].size()==0){ IV q; long long k=0; for(long long x:ivec(tt[z])){ q.push_back(k); k+=x; } tt.set(o,jints(q)); } }; off("sizes","offsets"); off("ssizes","soffsets"); m.set("t",tt); m.set("c",c); t.m.push_back(m); t.ct.push_back(ct); } ts.push_back(t); }
  struct FD{ std::string n,a; bool fl; int c; bool mc; }; std::vector<FD> fd; for(const char*n:{"e","g","p","q","s"}) if(g.chance(50)){ int c=g.chance(30)?g.range(1,3):1; fd.push_back({n,g.chance(50)?"element":"vertex",g.chance(50),c,c>1||g.chance(5)}); }
  J doms=J::arr(),own=J::arr(); for(int d=0;d<nd;d++){ J x=J::obj(),f=J::arr(),tp=J::arr(); for(auto&t:ts){ J y=J::obj(); y.set("n",t.n).set("m",t.m[(size_t)d]).set("ct",t.ct[(size_t)d]); tp.push(y); }
    std::vector<FD> fo=fd; if(g.chance(30)) for(size_t i=fo.size();i>1;i--) std::swap(fo[i-1],fo[(size_t)g.below((int)i)]);
    for(auto&F:fo){ if(g.chance(20)) continue; int on=two&&g.chance(30)?1:0; bool noa=g.chance(3); const J&m=ts[(size_t)on].m[(size_t)d]; long long n=F.a=="element"?nelem(m):npts(m["c"]); J y=J::obj(),c=J::arr(),ty=J::arr(); bool mix=g.chance(10); std::string bt=F.fl?g.pick(FT):g.pick(IT); for(int k=0;k<F.c;k++){ std::string t=mix?(F.fl&&g.chance(70)?g.pick(FT):g.pick(ST)):bt; if(mix&&F.fl&&k==0) t=g.pick(FT); IV v; for(long long i=0;i<n;i++) v.push_back(is_float(t)?g.range(0,400):4*g.range(0,100)); c.push(jints(v)); ty.push(J(t)); } y.set("n",F.n).set("a",noa?"":F.a).set("tp",ts[(size_t)on].n).set("t",ty).set("c",c).set("mc",F.mc); f.push(y); }
    x.set("tp",tp).set("f",f).set("nofld",f.size()==0&&g.chance(60)).set("id",ids||g.chance(30)?g.range(0,9):-1); doms.push(x); own.push(J(g.below(8)%NR())); }
  J fl=J::arr(); bool fs=g.chance(30); if(fs){ std::vector<std::string> N={"e","g","p","q","s","nope"}; for(size_t i=N.size();i>1;i--) std::swap(N[i-1],N[(size_t)g.below((int)i)]); int k=g.range(1,4); for(int i=0;i<k;i++) fl.push(J(N[(size_t)i])); }
  long long ff=g.range(0,60),fi=4*g.range(0,20); op.set("cs",g.chance(60)?"coords":"cc").set("doms",doms).set("own",own).set("topo",g.chance(40)?ts.back().n:g.chance(30)?"topo":"").set("fsel",fs).set("flds",fl).set("fill",g.pick(std::vector<std::string>{"","num","obj"})).set("ff",ff).set("fi",fi).set("hf",g.chance(60)).set("hi",g.chance(60));
  for(const char*k:{"adi","aec","avl","ar"}) op.set(k,g.pick(std::vector<int>{0,1,1,2,2})); op.set("root",g.chance(50)?g.below(8)%NR():-1).set("par",
#ifdef VH_PAR
  true
#else
  false
#endif
  ); return op; }
#ifndef VH_PAR
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
#else
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):300); if(argc<7) return 99; std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs;
  if(wrank()==0) for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5+(uint64_t)wsize()*1000003); J op=gen(g,prof); if(wrank()==0){ FILE*c=fopen((pre+"last").c_str(),"w"); if(c){ fprintf(c,"%s\n",op.str().c_str()); fclose(c); } } J out=exec(op); if(wrank()==0){ op.set("out",out); fprintf(fs[(size_t)(i%S)],"%s\n",op.str().c_str()); fflush(fs[(size_t)(i%S)]); } MPI_Barrier(MPI_COMM_WORLD); }
  if(wrank()==0) for(FILE*f:fs) fclose(f); MPI_Finalize(); return 0;
}
#endif
