// Driver for spec/Part.tla: partitioning a mesh and mapping fields back
// (serial; with VH_PAR the domains are spread over the ranks).
#include "vh_mat.hpp"
#ifdef VH_PAR
#include "vh_mpi.hpp"
#include "conduit_blueprint_mpi.hpp"
#define COMM ,MPI_COMM_WORLD
namespace bm=conduit::blueprint::mpi::mesh;
#else
#define COMM
namespace bm=conduit::blueprint::mesh;
#endif
using namespace vh; using namespace conduit; namespace bs=conduit::blueprint::mesh;
static int RK(){
#ifdef VH_PAR
  return wrank();
#else
  return 0;
#endif
}
static int NR(){
#ifdef VH_PAR
  return wsize();
#else
  return 1;
#endif
}
static std::vector<J> all(const J&x){
#ifdef VH_PAR
  return collect(x,MPI_COMM_WORLD);
#else
  return {x};
#endif
}
static const char*CN[3]={"u","v","w"};
static void build_fields(Node&d,const J&f,Build&B){ for(size_t i=0;i<f.size();i++){ const J&x=f.at(i); Node&n=d["fields"][x["n"].s]; n["association"]=x["a"].s; n["topology"]="topo"; bool fl=x["t"].s[0]=='f'; (void)fl; if(x["c"].size()==1) put_num(n["values"],x["t"].s,ivec(x["c"].at(0)),B.g,B.A,B.vary); else for(size_t k=0;k<x["c"].size();k++) put_num(n["values"][CN[k]],x["t"].s,ivec(x["c"].at(k)),B.g,B.A,B.vary); } }
static J raw_fields(const Node&d,const std::vector<std::string>&skip){ J a=J::arr(); if(!d.has_child("fields")) return a; for(idx_t i=0;i<d["fields"].number_of_children();i++){ const Node&n=d["fields"].child(i); bool s=false; for(auto&k:skip) s|=n.name()==k; if(s) continue; J x=J::obj(),c=J::arr(); const Node&v=n["values"]; if(v.dtype().is_object()) for(idx_t k=0;k<v.number_of_children();k++) c.push(jints(read_num(v.child(k)))); else c.push(jints(read_num(v))); x.set("n",n.name()).set("a",str_at(n,"association")).set("tp",str_at(n,"topology")).set("t",v.dtype().is_object()?tname(v.child(0).dtype().id()):tname(v.dtype().id())).set("c",c); a.push(x); } return a; }
static void build_dom(Node&n,const J&d,Build&B){ build_coords(n["coordsets/coords"],d["m"]["c"],B); build_topo(n["topologies/topo"],d["m"]["t"],"coords",B); build_fields(n,d["f"],B); if(d["mat"]["form"].s!=""){ build_matset(n["matsets/mset"],d["mat"],B); } if(d["id"].i>=0) n["state/domain_id"].set((int64)d["id"].i); if(d["cyc"].i>=0) n["state/cycle"].set((int64)d["cyc"].i); }
static J nomat(){ J m=J::obj(); m.set("form","").set("map",J::arr()).set("mats",J::arr()).set("ids",J::arr()).set("vf",J::arr()).set("e",J::arr()).set("sizes",J::arr()).set("offsets",J::arr()).set("indices",J::arr()); return m; }
static J pairs(const Node&d,const std::string&f){ J a=J::arr(); if(!d.has_path("fields/"+f)) return a; IV x=read_at(d,"fields/"+f+"/values/domains"),y=read_at(d,"fields/"+f+"/values/ids"); for(size_t i=0;i<x.size()&&i<y.size();i++) a.push(jints({x[i],y[i]})); return a; }
// materials of a part that none of its elements contains are left as empty nodes (known finding); an empty array is what is meant
static long long fill_empty(Node&d){ long long n=0; if(!d.has_path("matsets/mset")) return n; Node&m=d["matsets/mset"]; for(const char*k:{"volume_fractions","element_ids"}) if(m.has_child(k)&&m[k].dtype().is_object()) for(idx_t i=0;i<m[k].number_of_children();i++){ Node&c=m[k].child(i); if(c.dtype().is_empty()){ n++; if(k[0]=='v') c.set(DataType::float64(0)); else c.set(DataType::int64(0)); } } return n; }
static J exec(const J&op){
  CDIV()=op["cdiv"].i; Arena A; Build B(op["how"],A); Node mesh,opts,out; bool single=op["single"].b; const J&D=op["doms"]; std::vector<int> mine;
  for(size_t i=0;i<D.size();i++){ Node x; Rng keep=B.g; (void)keep; build_dom(x,D.at(i),B); if((int)(op["own"].at(i).i%NR())!=RK()) continue; mine.push_back((int)i); Node&y=single&&NR()==1?mesh:op["obj"].b?mesh["d"+std::to_string(i)]:mesh.append(); y.set(x); if(op["how"]["vary"].b&&op["ext"].b) { y.reset(); y.set_external(x); Node*keepn=new Node(x); y.reset(); y.set_external(*keepn); } }
  std::string ev=op["evn"].s,vv=op["vvn"].s; 
  const J&S=op["sels"]; for(size_t i=0;i<S.size();i++){ const J&s=S.at(i); if(NR()>1&&op["spread"].b&&s["any"].b==false){ bool here=false; for(int d:mine) here|=D.at((size_t)d)["did"].i==s["dom"].i; if(!here) continue; } Node&n=opts["selections"].append(); n["type"]=s["type"].s; if(s["any"].b) n["domain_id"]="any"; else if(s["dom"].i!=0||s["exp"].b) n["domain_id"].set((int64)s["dom"].i); if(s["topo"].b) n["topology"]="topo";
    if(s["type"].s=="logical"){ put_num(n["start"],op["how"]["it"].s,ivec(s["a"]),B.g,A,B.vary); put_num(n["end"],op["how"]["it"].s,ivec(s["b"]),B.g,A,B.vary); } else if(s["type"].s=="explicit") put_num(n["elements"],op["how"]["it"].s,ivec(s["a"]),B.g,A,B.vary); else if(s["type"].s=="ranges") put_num(n["ranges"],op["how"]["it"].s,ivec(s["a"]),B.g,A,B.vary); else n["field"]="part"; }
  if(S.size()&&!opts.has_child("selections")) opts["selections"].set(DataType::list());
  if(op["target"].i>0) opts["target"].set((int32)op["target"].i);
  if(op["fsel"].b) for(size_t i=0;i<op["flds"].size();i++) opts["fields"].append().set(op["flds"].at(i).s);
  if(!op["map"].b) opts["mapping"]=0; else if(op["expm"].b) opts["mapping"]=1;
  if(ev!="original_element_ids") opts["original_element_ids"]=ev; if(vv!="original_vertex_ids") opts["original_vertex_ids"]=vv;
  if(op["pre"].b) out["junk"]=1;
  std::string before=vtree(mesh).str()+vtree(opts).str(); const Node&cm=mesh; const Node&co=opts; J o=J::obj(),doms=J::arr(); o.set("ok",true).set("err","");
  try{
    bm::partition(cm,co,out COMM);
    o.set("src",vtree(mesh).str()+vtree(opts).str()==before);
    std::vector<Node*> od; if(out.has_child("coordsets")) od.push_back(&out); else for(idx_t i=0;i<out.number_of_children();i++) od.push_back(&out.child(i));
    for(Node*d:od){ J x=J::obj(); Node info; x.set("emat",fill_empty(*d)); bool v=bs::verify(*d,info); if(!v&&getenv("VH_WHY")) { info.print(); d->print(); } if(!d->has_path("topologies/topo")||d->child("topologies").number_of_children()!=1){ if(out.has_child("junk")) continue; } const Node&t=(*d)["topologies/topo"]; if(getenv("VH_WHY")) d->print(); J tr=raw_topo(t); tr.set("mixed",t.has_path("elements/element_types")||t.has_path("elements/shapes")||str_at(t,"elements/shape")=="mixed");
      x.set("r",RK()).set("id",d->has_path("state/domain_id")?(long long)(*d)["state/domain_id"].to_int64():-1LL).set("cyc",d->has_path("state/cycle")?(long long)(*d)["state/cycle"].to_int64():-1LL).set("ver",v).set("c",raw_coords((*d)["coordsets"][t["coordset"].as_string()])).set("t",tr).set("ve",pairs(*d,vv)).set("ee",pairs(*d,ev)).set("mat",d->has_path("matsets/mset")?raw_matset((*d)["matsets/mset"]):nomat()).set("nms",d->has_child("matsets")?(long long)(*d)["matsets"].number_of_children():0LL).set("f",raw_fields(*d,{ev,vv})).set("has",(d->has_path("fields/"+ev)?1:0)+(d->has_path("fields/"+vv)?2:0)); doms.push(x); }
    if(op["back"].b){ // change the fields of the parts and bring them home
      Node bo; for(size_t i=0;i<op["bf"].size();i++) bo["fields"].append().set(op["bf"].at(i).s); if(ev!="original_element_ids") bo["original_element_ids"]=ev; if(vv!="original_vertex_ids") bo["original_vertex_ids"]=vv;
      for(Node*d:od) for(size_t i=0;i<op["bf"].size();i++){ Node&v=(*d)["fields"][op["bf"].at(i).s]["values"]; auto bump=[&](Node&q){ std::string t=tname(q.dtype().id()); IV x=read_num(q); for(auto&y:x) y+=op["by"].i; Arena Z; Node tmp; put_num(tmp,t,x,B.g,Z,false); q.set(tmp); }; if(v.dtype().is_object()) for(idx_t k=0;k<v.number_of_children();k++) bump(v.child(k)); else bump(v); }
      Node home; std::vector<double*> mem; home.set(mesh); 
      std::vector<Node*> hd; if(home.has_child("coordsets")) hd.push_back(&home); else for(idx_t i=0;i<home.number_of_children();i++) hd.push_back(&home.child(i));
      for(Node*d:hd) for(size_t i=0;i<op["bf"].size();i++) if(op["drop"].b) (*d)["fields"].remove(op["bf"].at(i).s);
      std::string pb=vtree(out).str(); const Node&cout=out; bm::partition_map_back(cout,bo,home COMM); J hs=J::arr(); for(size_t k=0;k<hd.size();k++){ J x=J::obj(); Node h,q; h.set(*hd[k]); q.set(home.has_child("coordsets")?mesh:mesh.child((idx_t)k)); if(h.has_child("fields")) h.remove("fields"); if(q.has_child("fields")) q.remove("fields"); x.set("k",mine[k]+1).set("f",raw_fields(*hd[k],{})).set("rest",vtree(h).str()==vtree(q).str()); hs.push(x); }
      o.set("home",hs).set("psrc",vtree(out).str()==pb); }
  }catch(conduit::Error&e){ o.set("ok",false).set("err",e.message()); }
  o.set("doms",doms); std::vector<J> outs=all(o); J r=o; if(RK()==0){ J ds=J::arr(),hs=J::arr(); for(J&q:outs){ if(!q["ok"].b){ r.set("ok",false).set("err",q["err"]); continue; } if(!q["src"].b) r.set("src",false); for(size_t i=0;i<q["doms"].size();i++) ds.push(q["doms"].at(i)); if(op["back"].b){ for(size_t i=0;i<q["home"].size();i++) hs.push(q["home"].at(i)); if(!q["psrc"].b) r.set("psrc",false); } } r.set("doms",ds).set("home",hs); } return r; }
// ------------------------------------------------------------ scenarios
static J sub(const J&m,const IV&els,bool gap){ // the mesh of some elements (unstructured)
  const J&t=m["t"],&c=m["c"]; std::string s=t["shape"].s; static const std::map<std::string,int> AR={{"point",1},{"line",2},{"tri",3},{"quad",4},{"tet",4},{"hex",8}}; IV conn=ivec(t["conn"]),sz=ivec(t["sizes"]),sc=ivec(t["sconn"]),ss=ivec(t["ssizes"]); IV of,so; long long q=0; if(t["offsets"].size()==sz.size()) of=ivec(t["offsets"]); else for(auto x:sz){ of.push_back(q); q+=x; } q=0; for(auto x:ss){ so.push_back(q); q+=x; }
  std::map<long long,long long> pt,fc; IV pl,nc,ns,no,nsc,nss,nso; auto P=[&](long long p){ if(!pt.count(p)){ pt[p]=(long long)pl.size(); pl.push_back(p); } return pt[p]; };
  for(long long e:els){ if(s=="polyhedral"){ no.push_back((long long)nc.size()); ns.push_back(sz[(size_t)e]); for(long long k=0;k<sz[(size_t)e];k++){ long long f=conn[(size_t)(of[(size_t)e]+k)]; if(!fc.count(f)){ fc[f]=(long long)nss.size(); nso.push_back((long long)nsc.size()); nss.push_back(ss[(size_t)f]); for(long long v=0;v<ss[(size_t)f];v++) nsc.push_back(P(sc[(size_t)(so[(size_t)f]+v)])); } nc.push_back(fc[f]); } }
    else if(s=="polygonal"){ if(gap&&(e+(long long)nc.size())%3==0) nc.push_back(0); no.push_back((long long)nc.size()); ns.push_back(sz[(size_t)e]); for(long long k=0;k<sz[(size_t)e];k++) nc.push_back(P(conn[(size_t)(of[(size_t)e]+k)])); }
    else { int a=AR.at(s); for(int k=0;k<a;k++) nc.push_back(P(conn[(size_t)(e*a+k)])); } }
  J r=m,tt=t,cc=c,v=J::arr(); for(size_t d=0;d<c["v"].size();d++){ IV x; for(long long p:pl) x.push_back(c["v"].at(d).at((size_t)p).i); v.push(jints(x)); } cc.set("v",v); tt.set("conn",jints(nc)).set("sizes",jints(ns)).set("offsets",jints(no)).set("sconn",jints(nsc)).set("ssizes",jints(nss)).set("soffsets",jints(nso)); r.set("c",cc).set("t",tt); return r; }
static long long nelem(const J&m){ const J&t=m["t"],&c=m["c"]; if(t["type"].s=="unstructured"){ if(t["sizes"].size()) return (long long)t["sizes"].size(); static const std::map<std::string,int> AR={{"point",1},{"line",2},{"tri",3},{"quad",4},{"tet",4},{"hex",8}}; return (long long)t["conn"].size()/AR.at(t["shape"].s); } long long n=1; if(t["type"].s=="structured") for(size_t i=0;i<t["dims"].size();i++) n*=t["dims"].at(i).i; else if(c["type"].s=="uniform") for(size_t i=0;i<c["dims"].size();i++) n*=c["dims"].at(i).i-1; else for(size_t i=0;i<c["v"].size();i++) n*=(long long)c["v"].at(i).size()-1; return n; }
static std::vector<IV> points(const J&c){ std::vector<IV> P; size_t D=c["type"].s=="uniform"?c["dims"].size():c["v"].size(); if(c["type"].s=="explicit"){ for(size_t i=0;i<c["v"].at(0).size();i++){ IV p; for(size_t d=0;d<D;d++) p.push_back(c["v"].at(d).at(i).i); P.push_back(p); } return P; } std::vector<IV> ax; for(size_t d=0;d<D;d++){ if(c["type"].s=="uniform"){ IV a; for(long long i=0;i<c["dims"].at(d).i;i++) a.push_back((c["org"].size()?c["org"].at(d).i:0)+i*(c["sp"].size()?c["sp"].at(d).i:1)); ax.push_back(a); } else ax.push_back(ivec(c["v"].at(d))); } size_t n=1; for(auto&a:ax) n*=a.size(); for(size_t i=0;i<n;i++){ size_t q=i; IV p; for(auto&a:ax){ p.push_back(a[q%a.size()]); q/=a.size(); } P.push_back(p); } return P; }
static J blank_t(){ J t=J::obj(); t.set("type","").set("shape","").set("conn",J::arr()).set("sizes",J::arr()).set("offsets",J::arr()).set("sshape","").set("sconn",J::arr()).set("ssizes",J::arr()).set("soffsets",J::arr()).set("dims",J::arr()).set("org",J::arr()).set("doff",J::arr()).set("dstr",J::arr()); return t; }
// a block of a lattice: axis values and kind
static J block(const std::vector<IV>&ax,const std::string&kind,bool warp){ J m=J::obj(),c=J::obj(),t=blank_t(),a=J::arr(); size_t D=ax.size(); static const char*AX[3]={"x","y","z"}; for(size_t d=0;d<D;d++) a.push(J(AX[d])); c.set("type","").set("ax",a).set("v",J::arr()).set("dims",J::arr()).set("org",J::arr()).set("sp",J::arr()); IV dims,org,sp,ed; for(auto&x:ax){ dims.push_back((long long)x.size()); ed.push_back((long long)x.size()-1); org.push_back(x[0]); sp.push_back(x[1]-x[0]); }
  if(kind=="uniform"){ c.set("type","uniform").set("dims",jints(dims)).set("org",jints(org)).set("sp",jints(sp)); t.set("type","uniform"); }
  else { J v=J::arr(); for(auto&x:ax) v.push(jints(x)); c.set("type","rectilinear").set("v",v); t.set("type","rectilinear");
    if(kind!="rectilinear"){ std::vector<IV> P=points(c); std::vector<IV> w(D,IV(P.size())); for(size_t i=0;i<P.size();i++) for(size_t d=0;d<D;d++) w[d][i]=P[i][d]+(warp?(P[i][(d+1)%D]*7+P[i][d]*3)%5:0); J vv=J::arr(); for(auto&x:w) vv.push(jints(x)); c.set("type","explicit").set("v",vv); t.set("type","structured").set("dims",jints(ed));
      if(kind=="un"){ int n[3]={1,1,1},e[3]={1,1,1}; for(size_t d=0;d<D;d++){ n[d]=(int)dims[d]; e[d]=(int)ed[d]; } IV cn; for(int k=0;k<e[2];k++) for(int j=0;j<e[1];j++) for(int i=0;i<e[0];i++){ cn.push_back(lin(n,i,j,k)); cn.push_back(lin(n,i+1,j,k)); if(D>1){ cn.push_back(lin(n,i+1,j+1,k)); cn.push_back(lin(n,i,j+1,k)); } if(D>2){ cn.push_back(lin(n,i,j,k+1)); cn.push_back(lin(n,i+1,j,k+1)); cn.push_back(lin(n,i+1,j+1,k+1)); cn.push_back(lin(n,i,j+1,k+1)); } } t.set("type","unstructured").set("shape",D==1?"line":D==2?"quad":"hex").set("dims",J::arr()).set("conn",jints(cn)); } } }
  m.set("c",c).set("t",t); return m; }
static J exec(const J&op); static J gen1(Rng&g);
static J gen(Rng&g,const std::string&prof){ if(prof!="emptymat") return gen1(g);
  // a fixed example of a part without an element of a material (listed in known-findings.txt)
  J op; for(uint64_t s=1;s<3000;s++){ Rng h(s); op=gen1(h); if(op["doms"].at(0)["mat"]["form"].s!="bymat"||op["doms"].size()!=1) continue; J o=exec(op); bool any=false; for(size_t i=0;i<o["doms"].size();i++) any|=o["doms"].at(i)["emat"].i>0; if(any){ op.set("raw",true); break; } } return op; }
static J gen1(Rng&g){
  J op=J::obj(); J how=rand_how(g); how.set("ft",g.chance(70)?"float64":"float32"); op.set("op","part").set("how",how).set("pre",g.chance(20)).set("obj",g.chance(30)).set("ext",false).set("spread",g.chance(50)).set("cdiv",g.pick(std::vector<int>{1,1,4,16}));
  std::vector<J> M; bool grid=g.chance(50),one=false; int nd=g.range(1,NR()>1?5:4); std::string dbg;
  if(grid){ int D=g.pick(std::vector<int>{1,2,2,2,3,3,3}); one=D==1; bool uni=g.chance(50); std::vector<std::string> kinds; if(uni&&g.chance(30)) kinds={"uniform","rectilinear"}; else if(g.chance(15)) kinds={"rectilinear","structured"}; else if(g.chance(10)) kinds={"rectilinear","un"}; else kinds={g.pick(std::vector<std::string>{uni?"uniform":"rectilinear","rectilinear","structured","structured","un"})}; bool warp=kinds.size()==1&&g.chance(50);
    int cut=g.below(D); int nb[3]={1,1,1}; nb[cut]=nd; if(D>1&&nd==4&&g.chance(50)){ nb[cut]=2; nb[(cut+1)%D]=2; } std::vector<std::vector<IV>> ax((size_t)D); for(int d=0;d<D;d++){ long long x=g.range(-20,20),s=g.range(1,4)*10; bool gap=g.chance(20); for(int b=0;b<nb[d];b++){ IV a; int n=g.range(2,D==3?3:4); for(int i=0;i<n;i++){ a.push_back(x); if(i+1<n) x+=uni?s:10*g.range(1,4); } ax[(size_t)d].push_back(a); if(gap) x+=s; } }
    for(int k=0;k<nb[2];k++) for(int j=0;j<nb[1];j++) for(int i=0;i<nb[0];i++){ int q[3]={i,j,k}; std::vector<IV> a; for(int d=0;d<D;d++) a.push_back(ax[(size_t)d][(size_t)q[d]]); M.push_back(block(a,g.pick(kinds),warp)); } if(g.chance(30)) for(size_t i=M.size();i>1;i--) std::swap(M[i-1],M[(size_t)g.below((int)i)]); }
  else { MeshOpts O; O.kinds={"line","tri","quad","tet","hex","polygonal","polyhedral"}; O.axes=false; O.unit=10; O.gaps=true; O.maxe=4; bool gap=g.chance(20); J m; do { m=rand_mesh(g,O); } while(nelem(m)<2||nelem(m)>24); long long ne=nelem(m); if(nd>ne) nd=(int)ne; std::vector<IV> el((size_t)nd); for(long long e=0;e<ne;e++) el[(size_t)(e<nd?e:g.below(nd))].push_back(e); for(auto&x:el) M.push_back(sub(m,x,gap)); }
  nd=(int)M.size(); bool ids=g.chance(NR()>1?85:60); std::vector<int> ow; for(int d=0;d<nd;d++) ow.push_back(g.below(8)%NR()); std::vector<long long> ord((size_t)nd); for(int d=0;d<nd;d++) for(int z=0;z<nd;z++) if(ow[(size_t)z]<ow[(size_t)d]||(ow[(size_t)z]==ow[(size_t)d]&&z<d)) ord[(size_t)d]++; std::vector<int> pool={0,1,2,3,4,7,9,15}; if(g.chance(60)) for(size_t i=pool.size();i>1;i--) std::swap(pool[i-1],pool[(size_t)g.below((int)i)]); bool single=nd==1&&g.chance(50);
  // fields
  struct FD{ std::string n,a,t; int c; }; std::vector<FD> fd; static const std::vector<std::string> TT={"float64","float32","int32","int64"}; for(const char*n:{"e","g"}) if(g.chance(60)) fd.push_back({n,"element",g.pick(TT),g.chance(25)?g.range(2,3):1}); for(const char*n:{"p","q"}) if(g.chance(60)) fd.push_back({n,"vertex",g.pick(TT),g.chance(25)?g.range(2,3):1}); if(fd.empty()&&!g.chance(30)) fd.push_back({"e","element","float64",1});
  bool fs=!one&&g.chance(25),back=g.chance(35)&&!fs&&!fd.empty(),full=!back||g.chance(60); bool any=fs&&g.chance(60); if(fs) fd.push_back({"part","element",g.pick(std::vector<std::string>{"int32","int64","float64"}),1}); bool vback=back&&g.chance(60); if(vback) fd.push_back({"global_vertex_ids","vertex","int64",1});
  std::map<IV,long long> gv; J doms=J::arr(),own=J::arr(); std::vector<long long> did; long long cyc=g.chance(50)?g.range(0,99):-1; IV vals={0,1,2,3,5}; int nv=g.range(1,4);
  for(int d=0;d<nd;d++){ J x=J::obj(),f=J::arr(); long long ne=nelem(M[(size_t)d]); std::vector<IV> P=points(M[(size_t)d]["c"]); for(auto&F:fd){ J y=J::obj(),c=J::arr(); for(int k=0;k<F.c;k++){ IV v; if(F.n=="part") for(long long i=0;i<ne;i++) v.push_back(vals[(size_t)g.below(nv)]); else if(F.n=="global_vertex_ids"){ for(auto&p:P){ if(!gv.count(p)){ long long z=(long long)gv.size(); gv[p]=z; } v.push_back(gv[p]); } } else if(F.a=="element") for(long long i=0;i<ne;i++) v.push_back(g.range(0,500)); else for(auto&p:P){ long long h=17*(k+1); for(size_t z=0;z<p.size();z++) h=(h*31+p[z]*((long long)z+3)+(F.n=="p"?5:11))%997; v.push_back(h); } c.push(jints(v)); } y.set("n",F.n).set("a",F.a).set("t",F.t).set("c",c); f.push(y); }
    long long id=ids?pool[(size_t)d]:-1; did.push_back(ids?id:ord[(size_t)d]); x.set("id",id).set("did",did.back()).set("m",M[(size_t)d]).set("f",f).set("cyc",cyc); doms.push(x); own.push(J(ow[(size_t)d])); }
  { Rng h(g.next()); bool mat=h.chance(40),same=h.chance(60),mapped=h.chance(50); std::vector<std::string> nm={"steel","air","m1","Zinc"}; for(size_t i=nm.size();i>1;i--) std::swap(nm[i-1],nm[(size_t)h.below((int)i)]); nm.resize((size_t)h.range(1,4)); IV ids={0,1,2,3}; if(h.chance(50)) ids={7,2,12,0}; static const std::vector<std::string> F={"full","bymat","uni","unimat"}; std::string form=h.pick(F); for(int d=0;d<nd;d++){ doms.a[(size_t)d].set("mat",mat?rand_matset(h,(int)nelem(M[(size_t)d]),nm,ids,same?form:h.pick(F),mapped):nomat()); if(getenv("VH_NOMAT")) doms.a[(size_t)d].set("mat",nomat()); } }
  // selections
  J sels=J::arr(); long long total=0; int nsel=0; bool none=!fs&&g.chance(back&&full?50:30); if(!full) none=false; bool alllog=true,oor=false;
  auto base=[&](const std::string&t,long long dom){ J s=J::obj(); s.set("type",t).set("dom",dom).set("any",false).set("exp",g.chance(80)).set("topo",g.chance(20)).set("a",J::arr()).set("b",J::arr()); return s; };
  if(fs){ if(any){ J s=base("field",0); s.set("any",true); sels.push(s); for(int d=0;d<nd;d++) total+=nelem(M[(size_t)d]); } else for(int d=0;d<nd;d++){ sels.push(base("field",did[(size_t)d])); total+=nelem(M[(size_t)d]); } nsel=1; }
  else if(!none) for(int d=0;d<nd;d++){ if(!(back&&full)&&nd>1&&g.chance(15)&&!(d==nd-1&&nsel==0)) continue; const J&m=M[(size_t)d]; long long ne=nelem(m); std::string ty=g.pick(std::vector<std::string>{"explicit","ranges","logical"}); bool lat=m["t"]["type"].s!="unstructured"; if(ty=="logical"&&!lat) ty="ranges"; bool cover=(back&&full)||g.chance(50);
    if(ty=="logical"){ std::vector<long long> ed(3,1); const J&t=m["t"],&c=m["c"]; if(t["type"].s=="structured") for(size_t i=0;i<t["dims"].size();i++) ed[i]=t["dims"].at(i).i; else if(c["type"].s=="uniform") for(size_t i=0;i<c["dims"].size();i++) ed[i]=c["dims"].at(i).i-1; else for(size_t i=0;i<c["v"].size();i++) ed[i]=(long long)c["v"].at(i).size()-1; int cutd=g.below(3); long long at=ed[(size_t)cutd]>1&&g.chance(70)?g.range(1,(int)ed[(size_t)cutd]-1):0; std::vector<std::pair<long long,long long>> part; if(at){ part.push_back({0,at-1}); part.push_back({at,ed[(size_t)cutd]-1}); if(g.chance(30)) std::swap(part[0],part[1]); if(!cover&&g.chance(50)) part.pop_back(); } else part.push_back({0,ed[(size_t)cutd]-1});
      for(auto&pq:part){ IV a(3),b(3); for(int z=0;z<3;z++){ a[(size_t)z]=0; b[(size_t)z]=ed[(size_t)z]-1; if(!cover&&z!=cutd&&g.chance(30)){ a[(size_t)z]=g.range(0,(int)ed[(size_t)z]-1); b[(size_t)z]=g.range((int)a[(size_t)z],(int)ed[(size_t)z]-1); } if(z==cutd){ a[(size_t)z]=pq.first; b[(size_t)z]=pq.second; } } long long n=1; for(int z=0;z<3;z++) n*=b[(size_t)z]-a[(size_t)z]+1; for(int z=0;z<3;z++) if(b[(size_t)z]==ed[(size_t)z]-1&&g.chance(15)) b[(size_t)z]+=g.range(1,5); J s=base("logical",did[(size_t)d]); s.set("a",jints(a)).set("b",jints(b)); sels.push(s); total+=n; nsel++; } }
    else { alllog=false; int k=g.range(1,3); std::vector<IV> grp((size_t)k); for(long long e=0;e<ne;e++){ if(!cover&&g.chance(25)) continue; grp[(size_t)g.below(k)].push_back(e); } bool some=false; for(auto&q:grp){ if(q.empty()) continue; some=true; J s=base(ty,did[(size_t)d]); total+=(long long)q.size(); nsel++; if(ty=="explicit"){ if(g.chance(30)) for(size_t i=q.size();i>1;i--) std::swap(q[i-1],q[(size_t)g.below((int)i)]); if(g.chance(15)){ oor=true; q.push_back(ne+g.range(0,3)); if(g.chance(50)) std::swap(q[0],q.back()); } s.set("a",jints(q)); } else { IV r; for(long long e:q){ if(!r.empty()&&r.back()==e-1) r.back()=e; else { r.push_back(e); r.push_back(e); } } if(r.back()==ne-1&&g.chance(10)){ oor=true; r.back()+=3; } if(r.size()>2&&g.chance(20)){ std::swap(r[0],r[r.size()-2]); std::swap(r[1],r[r.size()-1]); } s.set("a",jints(r)); } sels.push(s); } if(!some&&nsel==0){ J s=base("explicit",did[(size_t)d]); s.set("a",jints({0})); sels.push(s); total++; nsel++; } } }
  if(none) for(int d=0;d<nd;d++){ total+=nelem(M[(size_t)d]); nsel++; }
  long long target=0; if(!fs&&!oor&&!one&&g.chance(60)) target=alllog&&!none&&g.chance(10)?total+g.range(1,3):g.chance(60)?g.range(1,(int)std::min<long long>(total,nsel+1)):g.range(1,(int)std::min<long long>(total,6));
  bool map=back||g.chance(75); bool fsel=!fs&&!back&&g.chance(15); J fl=J::arr(); if(fsel) for(auto&F:fd) if(g.chance(50)) fl.push(J(F.n)); if(fl.size()==0) fsel=false;
  bool ren=g.chance(15); J bf=J::arr(); if(back) for(auto&F:fd) if(F.n!="global_vertex_ids"&&(F.a=="element"||vback)&&g.chance(80)) bf.push(J(F.n)); if(bf.size()==0) back=false;
  op.set("raw",false).set("doms",doms).set("own",own).set("single",single).set("sels",sels).set("target",target).set("map",map).set("expm",g.chance(30)).set("fsel",fsel).set("flds",fl).set("evn",ren?"oe":"original_element_ids").set("vvn",ren?"ov":"original_vertex_ids").set("back",back).set("bf",bf).set("by",g.range(1,300)).set("drop",full&&g.chance(30)).set("full",full); return op;
}
#ifndef VH_PAR
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
#else
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):300); if(argc<7) return 99; std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs;
  if(wrank()==0) for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5+(uint64_t)wsize()*1000003); J op=gen(g,prof); if(wrank()==0){ FILE*c=fopen((pre+"last").c_str(),"w"); if(c){ fprintf(c,"%s\n",op.str().c_str()); fclose(c); } } J out=exec(op); if(wrank()==0){ op.set("out",out); fprintf(fs[(size_t)(i%S)],"%s\n",op.str().c_str()); fflush(fs[(size_t)(i%S)]); } MPI_Barrier(MPI_COMM_WORLD); }
  if(wrank()==0) for(FILE*f:fs) fclose(f); MPI_Finalize(); return 0;
}
#endif
