// Driver for spec/Adj.tla: adjacency sets of meshes split over domains (serial;
// with VH_PAR the domains are spread over the ranks).
#include "vh_mesh.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#ifdef VH_PAR
#include "vh_mpi.hpp"
#include "conduit_blueprint_mpi.hpp"
#include "conduit_blueprint_mpi_mesh_utils.hpp"
namespace bm=conduit::blueprint::mpi::mesh;
#define COMM ,MPI_COMM_WORLD
static int RK(){ return vh::wrank(); }
static int NR(){ return vh::wsize(); }
static std::vector<vh::J> all(const vh::J&x){ return vh::collect(x,MPI_COMM_WORLD); }
#else
namespace bm=conduit::blueprint::mesh;
#define COMM
static int RK(){ return 0; }
static int NR(){ return 1; }
static std::vector<vh::J> all(const vh::J&x){ return {x}; }
#endif
using namespace vh; using namespace conduit; namespace sm=conduit::blueprint::mesh; namespace bu=conduit::blueprint::mesh::utils;
static const int UNIT=120;
static double scale_of(const J&op){ return op["scl"].i==1?1.0:0.1*(double)op["scl"].i; }
// ------------------------------------------------------------ building
static void build_adj(Node&a,const J&gs,const std::map<long long,long long>&loc,const std::string&assoc,const std::string&topo,Build&B){
  a["association"]=assoc; a["topology"]=topo; a["groups"].set(DataType::object());
  for(size_t i=0;i<gs.size();i++){ Node&n=a["groups"][gs.at(i)["n"].s]; IV v; for(long long x:ivec(gs.at(i)["v"])) v.push_back(loc.at(x)); put_num(n["neighbors"],B.it,ivec(gs.at(i)["nb"]),B.g,B.A,B.vary); put_num(n["values"],B.it,v,B.g,B.A,B.vary); } }
static void build_dom(Node&n,const J&op,size_t k,Build&B,std::map<long long,long long>&loc){
  const J&d=op["doms"].at(k); IV lp=ivec(op["lp"].at(k)); for(size_t i=0;i<lp.size();i++) loc[lp[i]]=(long long)i;
  n["state/domain_id"].set((int64)d["id"].i); Node&c=n["coordsets/coords"]; c["type"]="explicit"; int D=(int)op["dim"].i; double s=scale_of(op); static const char*X[3]={"x","y","z"};
  for(int j=0;j<D;j++){ std::vector<double> v; for(long long p:lp) v.push_back(s*(double)op["pts"].at((size_t)p).at((size_t)j).i); if(B.ft=="float32"&&op["scl"].i==1){ std::vector<float> f(v.begin(),v.end()); c["values"][X[j]].set(f); } else c["values"][X[j]].set(v); }
  Node&t=n["topologies/topo"]; t["type"]="unstructured"; t["coordset"]="coords"; const std::string k2=op["kind"].s; const J&con=op["con"].at(k); IV cn,sz,of;
  if(k2=="polyh"){ std::map<std::vector<long long>,long long> fid; IV fc,fs,fo; t["elements/shape"]="polyhedral";
    for(size_t i=0;i<d["el"].size();i++){ const J&x=d["el"].at(i); of.push_back((long long)cn.size()); sz.push_back((long long)x.size()); for(size_t f=0;f<x.size();f++){ IV q=ivec(x.at(f)),key=q; std::sort(key.begin(),key.end()); if(!fid.count(key)){ long long id=(long long)fid.size(); fid[key]=id; fo.push_back((long long)fc.size()); fs.push_back((long long)q.size()); for(long long p:q) fc.push_back(loc[p]); } cn.push_back(fid[key]); } }
    t["subelements/shape"]="polygonal"; put_num(t["subelements/connectivity"],B.it,fc,B.g,B.A,B.vary); put_num(t["subelements/sizes"],B.it,fs,B.g,B.A,B.vary); put_num(t["subelements/offsets"],B.it,fo,B.g,B.A,B.vary); }
  else { t["elements/shape"]=k2=="poly"?"polygonal":k2; for(size_t i=0;i<con.size();i++){ of.push_back((long long)cn.size()); sz.push_back((long long)con.at(i).size()); for(long long p:ivec(con.at(i))) cn.push_back(loc[p]); } }
  put_num(t["elements/connectivity"],B.it,cn,B.g,B.A,B.vary); if(k2=="poly"||k2=="polyh"){ put_num(t["elements/sizes"],B.it,sz,B.g,B.A,B.vary); put_num(t["elements/offsets"],B.it,of,B.g,B.A,B.vary); }
  build_adj(n["adjsets/adj"],op["adj"].at(k),loc,op["assoc"].s,"topo",B); }
// ------------------------------------------------------------ reading
static J groups(const Node&a,std::function<J(long long)> key){ J r=J::arr(); if(!a.has_child("groups")) return r; const Node&g=a["groups"]; for(idx_t i=0;i<g.number_of_children();i++){ J x=J::obj(),v=J::arr(); for(long long y:read_at(g.child(i),"values")) v.push(key(y)); x.set("n",g.child(i).name()).set("nb",jints(read_at(g.child(i),"neighbors"))).set("v",v); r.push(x); } return r; }
static std::string orig(const Node&mesh){ Node c(mesh); for(Node*d:sm::domains(c)){ for(const char*p:{"topologies/dst","coordsets/dstc","adjsets/dst"}) if(d->has_path(p)) d->remove(p); if(d->has_child("fields")) d->remove("fields"); } return vtree(c).str(); }
static J exec(const J&op){
  Arena A; Build B(op["how"],A); const J&D=op["doms"]; size_t nd=D.size(); Node mesh; std::vector<std::map<long long,long long>> loc(nd); std::vector<Node*> dom(nd,(Node*)0); std::vector<std::unique_ptr<Node>> keep;
  bool single=NR()==1&&nd==1&&op["single"].b; if(!single) mesh.set(op["obj"].b?DataType::object():DataType::list());
  for(size_t i=0;i<nd;i++){ bool mine=(int)(op["own"].at(i).i%NR())==RK(); Node*x; if(!mine){ keep.emplace_back(new Node); x=keep.back().get(); } else if(single) x=&mesh; else if(op["obj"].b) x=&mesh["d"+std::to_string(i)]; else x=&mesh.append(); build_dom(*x,op,i,B,loc[i]); if(mine) dom[i]=x; }
  J o=J::obj(); o.set("ok",true).set("err",""); std::string before=orig(mesh); const std::string f=op["fun"].s; J G=J::obj(),AL=J::obj(),P1=J::obj(),M1=J::obj(),P2=J::obj(),M2=J::obj(),CN=J::obj(),OR=J::obj(); bool rest=true;
  try{
    Node s2d,d2s;
    if(op["op"].s=="derive"||(op["op"].s=="validate"&&f!="vertex")){
      if(f=="points") bm::generate_points(mesh,"adj","dst","dst",s2d,d2s COMM); else if(f=="lines") bm::generate_lines(mesh,"adj","dst","dst",s2d,d2s COMM); else if(f=="faces") bm::generate_faces(mesh,"adj","dst","dst",s2d,d2s COMM);
      else if(f=="centroids") bm::generate_centroids(mesh,"adj","dst","dst","dstc",s2d,d2s COMM); else if(f=="sides") bm::generate_sides(mesh,"adj","dst","dst","dstc",s2d,d2s COMM); else bm::generate_corners(mesh,"adj","dst","dst","dstc",s2d,d2s COMM); }
    for(size_t k=0;k<nd;k++) if(dom[k]){ Node&n=*dom[k]; std::string ks="d"+std::to_string(k); IV lp=ivec(op["lp"].at(k)); auto glob=[&](long long y){ return y>=0&&y<(long long)lp.size()?J(lp[(size_t)y]):J(-1); };
      if(op["op"].s=="derive"){ const Node&a=n["adjsets/dst"]; bool der=f=="points"||f=="lines"||f=="faces"; if(str_at(a,"topology")!="dst"||str_at(a,"association")!=(der?"element":"vertex")) o.set("ok",false).set("err","adjset header");
        auto ent=[&](long long y){ IV q; if(y<0||y>=(long long)bu::topology::length(n["topologies/dst"])) return J("bad"); for(idx_t p:bu::topology::unstructured::points(n["topologies/dst"],(idx_t)y)) q.push_back(glob((long long)p).i); std::sort(q.begin(),q.end()); return jints(q); };
        auto pos=[&](long long y){ IV q; const Node&v=n["coordsets/dstc/values"]; for(idx_t j=0;j<v.number_of_children();j++){ float64_accessor z=v.child(j).as_float64_accessor(); if(y<0||y>=z.number_of_elements()) return J("bad"); q.push_back(whole(z[(idx_t)y]/scale_of(op)*UNIT)); } return jints(q); };
        if(der){ G.set(ks,groups(a,ent)); J al=J::arr(); for(idx_t y=0;y<bu::topology::length(n["topologies/dst"]);y++) al.push(ent(y)); AL.set(ks,al); } else { G.set(ks,groups(a,pos)); AL.set(ks,J::arr()); } }
      else if(op["op"].s=="conv"){ const Node&src=n["adjsets/adj"]; Node&dst=n["adjsets/dst"]; if(op["pre"].b) dst["groups/x"]=1; if(f=="pairwise") sm::adjset::to_pairwise(src,dst); else sm::adjset::to_maxshare(src,dst);
        G.set(ks,groups(dst,glob)); rest=rest&&str_at(dst,"topology")=="topo"&&str_at(dst,"association")==op["assoc"].s; P1.set(ks,sm::adjset::is_pairwise(src)); M1.set(ks,sm::adjset::is_maxshare(src)); P2.set(ks,sm::adjset::is_pairwise(dst)); M2.set(ks,sm::adjset::is_maxshare(dst)); } }
    if(op["op"].s=="paint"){ for(int r=0;r<(int)op["reps"].i;r++) sm::paint_adjset("adj","p",mesh);
      for(size_t k=0;k<nd;k++) if(dom[k]){ Node&n=*dom[k]; std::string ks="d"+std::to_string(k); CN.set(ks,jints(read_at(n,"fields/p_group_count/values"))); J w=J::arr(); const Node&ff=n["fields"]; for(idx_t i=0;i<ff.number_of_children();i++){ std::string nm=ff.child(i).name(); if(nm.compare(0,8,"p_order_")) continue; J x=J::obj(); x.set("n",nm.substr(8)).set("v",jints(read_at(ff.child(i),"values"))); w.push(x); if(str_at(ff.child(i),"association")!=op["assoc"].s||str_at(ff.child(i),"topology")!="topo") rest=false; } OR.set(ks,w); } }
    if(op["op"].s=="validate"){ Rng r((uint64_t)op["bad"]["seed"].i); const std::string an=f=="vertex"?"adj":"dst"; std::string w=op["bad"]["w"].s; long long bk=op["bad"]["k"].i;
      for(size_t k=0;k<nd;k++) if(dom[k]){ Node&n=*dom[k]; Node&a=n["adjsets"][an]["groups"]; std::string ks="d"+std::to_string(k); long long cnt=f=="vertex"?(long long)op["lp"].at(k).size():(long long)bu::topology::length(n["topologies/dst"]);
        if((long long)k==bk&&a.number_of_children()){ idx_t gi=r.below((int)a.number_of_children()); Node&gr=a.child(gi); IV v=read_at(gr,"values"); if(w=="drop") a.remove(gi); else if(w=="clear") a.set(DataType::object()); else if(w=="add"){ v.push_back(r.below((int)cnt)); gr["values"].reset(); put_num(gr["values"],B.it,v,B.g,B.A,false); } else if(w=="swap"&&v.size()){ v[(size_t)r.below((int)v.size())]=r.below((int)cnt); gr["values"].reset(); put_num(gr["values"],B.it,v,B.g,B.A,false); } else if(w=="less"&&v.size()>1){ v.pop_back(); gr["values"].reset(); put_num(gr["values"],B.it,v,B.g,B.A,false); } } 
        IV lp=ivec(op["lp"].at(k)); auto ent=[&](long long y){ IV q; if(f=="vertex") q.push_back(lp[(size_t)y]); else for(idx_t p:bu::topology::unstructured::points(n["topologies/dst"],(idx_t)y)) q.push_back(lp[(size_t)p]); std::sort(q.begin(),q.end()); return jints(q); }; G.set(ks,groups(n["adjsets"][an],ent)); }
      before=orig(mesh); Node info; const Node&cm=mesh;
#ifdef VH_PAR
      o.set("val",conduit::blueprint::mpi::mesh::utils::adjset::validate(cm,an,info,MPI_COMM_WORLD));
#else
      o.set("val",bu::adjset::validate(cm,an,info));
#endif
      if(getenv("VH_WHY")) info.print(); o.set("info",info.number_of_children()>0); }
    if(getenv("VH_WHY")) mesh.print();
    o.set("src",orig(mesh)==before&&rest);
  } catch(conduit::Error&e){ o.set("ok",false).set("err",e.message()); }
  o.set("g",G).set("all",AL).set("p1",P1).set("m1",M1).set("p2",P2).set("m2",M2).set("cn",CN).set("or",OR);
  std::vector<J> outs=all(o); J r=J::obj(); if(RK()==0){ bool ok=true,src=true; std::string err; for(J&q:outs){ if(!q["ok"].b){ ok=false; err=q["err"].s; } else src=src&&q["src"].b; } bool v0=ok&&outs[0].has("val")&&outs[0]["val"].b,inf=false,same=true; for(J&q:outs) if(ok&&q.has("val")){ same=same&&q["val"].b==v0; inf=inf||q["info"].b; } r.set("val",v0).set("same",same).set("info",inf).set("ok",ok).set("err",err).set("src",src).set("rest",src).set("nr",NR());
    if(!ok){ for(const char*n:{"g","all","pin","min","pout","mout","cnt","ord"}) r.set(n,J::arr()); return r; }
    auto col=[&](const char*from,const char*to){ J a=J::arr(); for(size_t k=0;k<nd;k++){ const J&q=outs[(size_t)(op["own"].at(k).i%NR())]; if(q[from].has("d"+std::to_string(k))) a.push(q[from]["d"+std::to_string(k)]); } r.set(to,a); };
    col("g","g"); col("all","all"); col("p1","pin"); col("m1","min"); col("p2","pout"); col("m2","mout"); col("cn","cnt"); col("or","ord"); }
  return r; }
// ------------------------------------------------------------ scenarios
template<class T> static void shuffle(Rng&g,std::vector<T>&v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[(size_t)g.below((int)i)]); }
static J gen(Rng&g,const std::string&prof){
  J op=J::obj(); bool jit=prof!="exact"&&g.chance(50); bool D3=g.chance(40); int D=D3?3:2; std::string kind=D3?g.pick(std::vector<std::string>{"hex","hex","tet","polyh"}):g.pick(std::vector<std::string>{"quad","quad","tri","poly"});
  int n[3]={g.range(1,D3?2:4),g.range(1,D3?2:3),D3?g.range(1,kind=="tet"?1:2):0}; if(D3&&g.chance(30)) n[0]=3;
  auto P=[&](int i,int j,int k){ return (long long)(i+(n[0]+1)*(j+(n[1]+1)*k)); }; J pts=J::arr(); std::vector<IV> cy; // elements: connectivity and faces
  for(int k=0;k<=(D3?n[2]:0);k++) for(int j=0;j<=n[1];j++) for(int i=0;i<=n[0];i++){ IV c={i,j}; if(D3) c.push_back(k); if(jit) for(auto&x:c) x=10*x+g.range(-3,3); pts.push(jints(c)); }
  std::vector<IV> con; std::vector<J> el; auto F=[&](std::vector<IV> fs){ J a=J::arr(); for(auto&x:fs) a.push(jints(x)); return a; };
  if(!D3){ std::set<std::pair<int,int>> used; for(int j=0;j<n[1];j++) for(int i=0;i<n[0];i++){ if(used.count({i,j})) continue; IV q={P(i,j,0),P(i+1,j,0),P(i+1,j+1,0),P(i,j+1,0)}; if(kind=="tri"){ if(g.chance(50)){ con.push_back({q[0],q[1],q[2]}); con.push_back({q[0],q[2],q[3]}); } else { con.push_back({q[0],q[1],q[3]}); con.push_back({q[1],q[2],q[3]}); } }
      else if(kind=="poly"&&i+1<n[0]&&g.chance(40)){ used.insert({i+1,j}); con.push_back({P(i,j,0),P(i+1,j,0),P(i+2,j,0),P(i+2,j+1,0),P(i+1,j+1,0),P(i,j+1,0)}); } else con.push_back(q); }
    for(auto&c:con){ int r=g.chance(40)?g.below((int)c.size()):0; std::rotate(c.begin(),c.begin()+r,c.end()); el.push_back(F({c})); } }
  else for(int k=0;k<n[2];k++) for(int j=0;j<n[1];j++) for(int i=0;i<n[0];i++){ IV v; for(int c=0;c<2;c++){ v.push_back(P(i,j,k+c)); v.push_back(P(i+1,j,k+c)); v.push_back(P(i+1,j+1,k+c)); v.push_back(P(i,j+1,k+c)); }
      if(kind=="tet"){ int o[6][2]={{1,2},{1,5},{3,2},{3,7},{4,5},{4,7}}; for(auto&x:o){ IV t={v[0],v[(size_t)x[0]],v[(size_t)x[1]],v[6]}; con.push_back(t); el.push_back(F({{t[0],t[2],t[1]},{t[0],t[1],t[3]},{t[1],t[2],t[3]},{t[0],t[3],t[2]}})); } }
      else { con.push_back(v); el.push_back(F({{v[0],v[3],v[2],v[1]},{v[0],v[1],v[5],v[4]},{v[1],v[2],v[6],v[5]},{v[2],v[3],v[7],v[6]},{v[3],v[0],v[4],v[7]},{v[4],v[5],v[6],v[7]}})); } }
  // domains: blocks of the element order, or any assignment
  int nd=g.pick(std::vector<int>{1,2,2,3,3,4}); if(nd>(int)con.size()) nd=(int)con.size(); std::vector<int> as(con.size()); bool blocks=g.chance(50); for(size_t i=0;i<as.size();i++) as[i]=blocks?(int)(i*(size_t)nd/as.size()):g.below(nd); { std::set<int> u(as.begin(),as.end()); std::map<int,int> m; for(int x:u){ int q=(int)m.size(); m[x]=q; } for(int&x:as) x=m[x]; nd=(int)u.size(); }
  IV ids; { std::vector<int> c={0,1,2,3,5,7,9,10,12,100}; if(g.chance(60)) c={0,1,2,3}; shuffle(g,c); for(int i=0;i<nd;i++) ids.push_back(c[(size_t)i]); if(g.chance(40)) std::sort(ids.begin(),ids.end()); }
  std::vector<std::vector<size_t>> mem((size_t)nd); for(size_t i=0;i<con.size();i++) mem[(size_t)as[i]].push_back(i);
  J doms=J::arr(),LP=J::arr(),CON=J::arr(),own=J::arr(); std::map<long long,std::set<int>> at; 
  for(int d=0;d<nd;d++){ auto&m=mem[(size_t)d]; if(g.chance(40)) shuffle(g,m); J e=J::arr(),c=J::arr(); std::set<long long> s; for(size_t i:m){ e.push(el[i]); c.push(jints(con[i])); for(long long p:con[i]) s.insert(p); } IV lp(s.begin(),s.end()); if(g.chance(60)) shuffle(g,lp); for(long long p:lp) at[p].insert(d);
    J x=J::obj(); x.set("id",ids[(size_t)d]).set("el",e); doms.push(x); LP.push(jints(lp)); CON.push(c); own.push(J(g.below(12))); }
  // the source adjset, entries in one global order
  std::string mode=g.pick(std::vector<std::string>{"pair","max","split"}); IV order; for(auto&q:at) if(q.second.size()>1) order.push_back(q.first); if(g.chance(50)) shuffle(g,order);
  struct Gp{ std::set<int> m; std::string n; IV v; }; std::vector<Gp> gp; auto nm=[&](const std::set<int>&m){ IV q; for(int d:m) q.push_back(ids[(size_t)d]); std::sort(q.begin(),q.end()); std::string s="group"; for(long long x:q) s+="_"+std::to_string(x); return s; };
  auto put=[&](const std::set<int>&m,const std::string&name,long long p){ for(auto&x:gp) if(x.n==name){ x.v.push_back(p); return; } gp.push_back({m,name,{p}}); };
  for(long long p:order){ const std::set<int>&m=at[p]; if(mode=="pair"){ for(int a:m) for(int b:m) if(a<b) put({a,b},nm({a,b}),p); } else if(mode=="max") put(m,nm(m),p); else put(m,nm(m)+(g.chance(50)?"_b":"_a"),p); }
  bool odd=g.chance(30); if(odd){ std::vector<int> r; for(size_t i=0;i<gp.size();i++) r.push_back((int)i); shuffle(g,r); for(size_t i=0;i<gp.size();i++) gp[i].n="g"+std::to_string(r[i]); }
  J adj=J::arr(); for(int d=0;d<nd;d++){ std::vector<Gp> mine; for(auto&x:gp) if(x.m.count(d)) mine.push_back(x); if(g.chance(50)) shuffle(g,mine); J a=J::arr(); for(auto&x:mine){ IV nb; for(int b:x.m) if(b!=d) nb.push_back(ids[(size_t)b]); if(g.chance(40)) shuffle(g,nb); J y=J::obj(); y.set("n",x.n).set("nb",jints(nb)).set("v",jints(x.v)); a.push(y); } adj.push(a); }
  J how=rand_how(g); op.set("how",how).set("dim",D).set("kind",kind).set("unit",UNIT).set("scl",prof=="exact"||g.chance(50)?1:g.pick(std::vector<int>{1,3,7})).set("pts",pts).set("doms",doms).set("lp",LP).set("con",CON).set("own",own).set("adj",adj).set("obj",g.chance(50)).set("single",g.chance(50)).set("assoc","vertex").set("pre",g.chance(20)).set("reps",g.chance(40)?2:1);
  int q=g.below(100); if(NR()>1) q=g.below(75); { J b=J::obj(); b.set("w",g.pick(std::vector<std::string>{"","drop","clear","add","swap","less",""})).set("k",g.below(nd)).set("seed",g.below(1000)); op.set("bad",b); } if(q>=50&&q<62&&nd>1){ op.set("op","validate").set("fun",g.pick(std::vector<std::string>{"vertex","points","lines","faces"})); return op; } if(q<60) op.set("op","derive").set("fun",g.pick(std::vector<std::string>{"points","lines","faces","centroids","sides","corners"})); else if(q<88) op.set("op","conv").set("fun",g.chance(50)?"pairwise":"maxshare"); else op.set("op","paint").set("fun","");
  return op; }
#ifndef VH_PAR
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
#else
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):300); if(argc<7) return 99; std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs;
  if(wrank()==0) for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5+(uint64_t)wsize()*1000003); J op=gen(g,prof); if(wrank()==0){ FILE*c=fopen((pre+"last").c_str(),"w"); if(c){ fprintf(c,"%s\n",op.str().c_str()); fclose(c); } } J out=exec(op); if(wrank()==0){ op.set("out",out); fprintf(fs[(size_t)(i%S)],"%s\n",op.str().c_str()); fflush(fs[(size_t)(i%S)]); } MPI_Barrier(MPI_COMM_WORLD); }
  if(wrank()==0) for(FILE*f:fs) fclose(f); MPI_Finalize(); return 0;
}
#endif
