// Histories of relay::io::blueprint calls (file sets of multi-domain meshes) on
// a scratch directory, recorded for BpFiles.tla. With VH_PAR: the MPI version,
// domains spread over the ranks.
#include "vh_mesh.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_blueprint.hpp"
#include <dirent.h>
#include <sys/stat.h>
#ifdef VH_PAR
#include "vh_mpi.hpp"
#include "conduit_relay_mpi_io_blueprint.hpp"
namespace bpio=conduit::relay::mpi::io::blueprint;
#define COMM ,MPI_COMM_WORLD
static int RK(){ return vh::wrank(); } static int NR(){ return vh::wsize(); }
static std::vector<vh::J> all(const vh::J&j){ return vh::collect(j,MPI_COMM_WORLD); }
static void vsync(){ MPI_Barrier(MPI_COMM_WORLD); }
#else
namespace bpio=conduit::relay::io::blueprint;
#define COMM
static int RK(){ return 0; } static int NR(){ return 1; }
static std::vector<vh::J> all(const vh::J&j){ return std::vector<vh::J>(1,j); }
static void vsync(){}
#endif
using namespace vh; using namespace conduit;
static std::string dir;
static void walk(const std::string&d,const std::string&rel,std::function<void(const std::string&,bool)> f){ DIR*p=opendir((d+"/"+rel).c_str()); if(!p) return; std::vector<std::string> names; while(dirent*e=readdir(p)){ std::string n=e->d_name; if(n!="."&&n!="..") names.push_back(n); } closedir(p); for(auto&n:names){ std::string r=rel.empty()?n:rel+"/"+n; struct stat s; if(lstat((d+"/"+r).c_str(),&s)) continue; if(S_ISDIR(s.st_mode)){ walk(d,r,f); f(r,true); } else f(r,false); } }
static void wipe(){ if(dir.compare(0,12,"/tmp/vh_bpio")) return; walk(dir,"",[&](const std::string&r,bool d){ if(d) rmdir((dir+"/"+r).c_str()); else unlink((dir+"/"+r).c_str()); }); }
static J listing(){ std::vector<std::string> v; walk(dir,"",[&](const std::string&r,bool d){ if(!d) v.push_back(r); }); std::sort(v.begin(),v.end()); return J::list(v); }
// the leaves of a tree
static void flat(const Node&n,const std::string&p,J&a){
  if(n.dtype().is_object()){ for(idx_t i=0;i<n.number_of_children();i++) flat(n.child(i),p.empty()?n.child_names()[(size_t)i]:p+"/"+n.child_names()[(size_t)i],a); return; }
  J x=J::obj(); x.set("p",p); std::string v; if(n.dtype().is_string()) v="'"+n.as_string(); else if(n.dtype().is_number()){ float64_accessor q=n.as_float64_accessor(); for(idx_t i=0;i<q.number_of_elements();i++){ char b[40]; snprintf(b,40,"%.17g",(double)q[i]); v+=(i?" ":"")+std::string(b); } } else v="?"+n.dtype().name();
  x.set("t",n.dtype().name()).set("v",v); a.push(x); }
static J flat(const Node&n){ J a=J::arr(); flat(n,"",a); return a; }
static void field(Node&f,Rng&g,Arena&A,long long n,const std::string&as){ f["association"]=as; f["topology"]="topo"; if(g.chance(20)) f["volume_dependent"]=g.chance(50)?"true":"false"; auto vals=[&](){ IV v; for(long long i=0;i<n;i++) v.push_back(g.range(-9,9)); return v; }; std::string t=g.pick(num_types()); if(t[0]=='u') t="float32"; if(g.chance(25)){ put_num(f["values/u"],t,vals(),g,A,true); put_num(f["values/v"],t,vals(),g,A,true); } else put_num(f["values"],t,vals(),g,A,true); if(g.chance(20)) f["units"]="cm"; }
static void domain(Node&d,Rng&g,Arena&A,int cycle,bool time,bool tiny){
  d.reset(); MeshOpts O; O.kinds=tiny?std::vector<std::string>{"points","line"}:all_kinds(); O.unit=1; O.maxe=2; O.axes=false; J m=rand_mesh(g,O); build_mesh(d,m,rand_how(g),A); const Node&topo=d["topologies/topo"]; Node info; long long ne=blueprint::mesh::utils::topology::length(topo),np=blueprint::mesh::utils::coordset::length(d["coordsets/coords"]);
  for(const char*k:{"f","g","h"}) if(g.chance(45)) field(d["fields"][k],g,A,g.chance(50)?ne:np,""); if(d.has_child("fields")) for(idx_t i=0;i<d["fields"].number_of_children();i++){ Node&f=d["fields"].child(i); const Node&v=f["values"].dtype().is_object()?f["values"].child(0):f["values"]; f["association"]=v.dtype().number_of_elements()==np?"vertex":"element"; }
  if(g.chance(20)){ Node&s=d["matsets/m"]; s["topology"]="topo"; for(const char*k:{"a","b"}){ IV v((size_t)ne,k[0]=='a'?1:0); put_num(s["volume_fractions"][k],"float64",v,g,A,true); } if(g.chance(40)){ s["material_map/a"]=3; s["material_map/b"]=1; } }
  if(g.chance(20)){ Node&s=d["adjsets/adj"]; s["association"]="vertex"; s["topology"]="topo"; put_num(s["groups/g0/neighbors"],"int32",{1},g,A,true); put_num(s["groups/g0/values"],"int64",{0,1},g,A,true); }
  if(g.chance(8)){ Node&s=d["nestsets/nest"]; s["association"]="element"; s["topology"]="topo"; Node&w=s["windows/w0"]; w["domain_id"]=1; w["domain_type"]="child"; w["ratio/i"]=2; }
  if(cycle>=0) { if(g.chance(50)) d["state/cycle"]=cycle; else d["state/cycle"].set((int64)cycle); } if(time) d["state/time"]=0.25*g.range(0,9);
  if(g.chance(20)) d["state/note"]="x y"; int q=g.below(3); if(q) { long long id=g.range(0,30); if(q==1) d["state/domain_id"].set((int32)id); else d["state/domain_id"].set((int64)id); } }
static void history(int hi,Rng&g,std::function<void(const J&)> put){
  if(RK()==0) wipe(); vsync(); J b=J::obj(); b.set("op","begin"); put(b);
  std::string base="h"+std::to_string(hi); bool rel=g.chance(40); auto full=[&](const std::string&p){ return rel?p:dir+"/"+p; };
  std::vector<std::string> roots,protos={"hdf5","hdf5","json","yaml"}; std::map<std::string,std::string> rproto; std::map<std::string,std::set<std::string>> rnames,used; std::map<std::string,int> cnt; int len=g.range(3,9);
  auto known=[&](const std::string&r,const std::string&p){ return !rproto.count(r)||rproto[r]==p; };
  for(int s=0;s<len;s++){ int q=g.below(100); Arena A;
    if(q<45){ // save
      J op=J::obj(); std::string path=base+g.pick(std::vector<std::string>{"a","a","b","sub/c"}),proto=g.pick(protos); int via=g.below(3); bool trunc=g.chance(60); if(via==0) proto="hdf5"; if(path.find('/')!=std::string::npos&&RK()==0) mkdir((dir+"/"+base+"sub").c_str(),0700); vsync();
      std::string style="default",suffix="default",name="mesh"; int nf=0; if(via==2){ style=g.pick(std::vector<std::string>{"default","root_only","multi_file","multi_file"}); suffix=g.pick(std::vector<std::string>{"default","cycle","none"}); name=g.pick(std::vector<std::string>{"mesh","m2","zed"}); if(g.chance(60)) nf=g.range(-1,6); }
      int cyc=g.chance(50)?g.pick(std::vector<int>{0,7,120,1234567}):-1; bool time=g.chance(30); bool tiny=g.chance(15); int nd=tiny?g.range(8,12):g.range(1,g.chance(50)?2:5);
      std::string stem=path; bool cnum=suffix=="cycle"&&cyc<0; if(suffix!="none"&&(suffix=="cycle"||cyc>=0)){ char bb[40]; snprintf(bb,40,".cycle_%06d",cnum?cnt[path]:cyc); stem+=bb; } std::string root=stem+".root";
      if(!trunc&&(used[root].count(name)||!known(root,proto))) trunc=true; if(rproto.count(root)&&rproto[root]!=proto){ if(rproto[root]!="hdf5"&&proto=="hdf5") proto=rproto[root]; else if(proto!=rproto[root]) proto=rproto[root]; if(via==0) via=1; }
      std::vector<int> owner; for(int d=0;d<nd;d++) owner.push_back(g.below(NR())); std::sort(owner.begin(),owner.end()); bool obj=g.chance(40); bool single=NR()==1&&nd==1&&g.chance(60);
      Node mesh; J doms=J::arr(); Arena B; for(int d=0;d<nd;d++){ Node x; domain(x,g,B,cyc,time,tiny); doms.push(flat(x)); if(owner[(size_t)d]==RK()){ Node&y=single?mesh:obj?mesh["dom"+std::to_string(d)]:mesh.append(); y.move(x); } }
      Node opts; if(via==2){ if(style!="default"||g.chance(30)) opts["file_style"]=style; if(suffix!="default"||g.chance(30)) opts["suffix"]=suffix; if(name!="mesh"||g.chance(30)) opts["mesh_name"]=name; if(nf!=0) opts["number_of_files"]=nf; if(trunc&&g.chance(30)) opts["truncate"]="true"; }
      std::string before=vtree(mesh).str(); J out=J::obj(); out.set("ok",true).set("err",""); const Node&cm=mesh; std::string fp=full(path); bool asw=!trunc||(opts.has_child("truncate")&&g.chance(50));
      try{ if(!asw){ if(via==0) bpio::save_mesh(cm,fp COMM); else if(via==1) bpio::save_mesh(cm,fp,proto COMM); else bpio::save_mesh(cm,fp,proto,opts COMM); } else { if(via==0) bpio::write_mesh(cm,fp COMM); else if(via==1) bpio::write_mesh(cm,fp,proto COMM); else bpio::write_mesh(cm,fp,proto,opts COMM); } }catch(conduit::Error&e){ out.set("ok",false).set("err",e.message()); }
      out.set("src",vtree(mesh).str()==before); vsync(); out.set("files",RK()==0?listing():J::arr()); vsync();
      if(cnum) cnt[path]++; if(trunc) rnames[root].clear(); rnames[root].insert(name); used[root].insert(name); rproto[root]=proto; roots.push_back(root);
      std::vector<J> outs=all(out); if(RK()==0){ J o=outs[0]; for(size_t i=1;i<outs.size();i++){ if(!outs[i]["ok"].b) o.set("ok",false).set("err",outs[i]["err"]); if(!outs[i]["src"].b) o.set("src",false); } op.set("op","save").set("trunc",trunc).set("via",via).set("asw",asw).set("path",path).set("style",style).set("suffix",suffix).set("name",name).set("nf",nf).set("cycle",cyc).set("proto",proto).set("doms",doms).set("own",jints(IV(owner.begin(),owner.end()))).set("single",single).set("rel",rel).set("out",o); put(op); }
      if(g.chance(60)) s--; if(!g.chance(65)) continue; q=60; }
    if(q<80){ std::string root=roots.empty()||g.chance(5)?base+"nope.root":g.pick(roots); std::string name; if(rnames[root].size()>1||g.chance(40)){ std::vector<std::string> v(rnames[root].begin(),rnames[root].end()); v.push_back("zed"); name=g.pick(v); } Node m,opts; if(!name.empty()) opts["mesh_name"]=name; bool load=g.chance(60); if(load&&g.chance(50)) m["domain_000000/junk"]=3; J out=J::obj(),doms=J::arr(); out.set("ok",true).set("err","");
      try{ if(load){ if(name.empty()&&g.chance(50)) bpio::load_mesh(full(root),m COMM); else bpio::load_mesh(full(root),opts,m COMM); } else { if(name.empty()&&g.chance(50)) bpio::read_mesh(full(root),m COMM); else bpio::read_mesh(full(root),opts,m COMM); } for(idx_t i=0;i<m.number_of_children();i++){ J x=J::obj(); x.set("n",m.child(i).name()).set("e",flat(m.child(i))).set("r",RK()); doms.push(x); } }catch(conduit::Error&e){ out.set("ok",false).set("err",e.message()); }
      out.set("doms",doms); vsync(); std::vector<J> outs=all(out); if(RK()==0){ J o=outs[0]; J ds=J::arr(); o.set("agree",true); for(size_t i=0;i<outs.size();i++){ if(outs[i]["ok"].b!=o["ok"].b) o.set("agree",false); for(size_t k=0;k<outs[i]["doms"].size();k++) ds.push(outs[i]["doms"].at(k)); } o.set("doms",ds); J op=J::obj(); op.set("op","load").set("root",root).set("name",name).set("out",o); put(op); } continue; }
    if(q<90){ int nd=g.range(1,14),nf=g.range(1,nd); Node o; relay::io::blueprint::gen_domain_to_file_map(nd,nf,o); if(RK()==0){ J op=J::obj(),out=J::obj(); out.set("d2f",jints(read_num(o["global_domain_to_file"]))).set("per",jints(read_num(o["global_domains_per_file"]))).set("off",jints(read_num(o["global_domain_offsets"]))); op.set("op","map").set("nd",nd).set("nf",nf).set("out",out); put(op); } continue; }
    { // a file set written by other means
      std::string proto=g.pick(protos),stem=base+"x"+std::to_string(s); int nd=g.range(1,5),nf=g.range(1,nd); bool legacy=g.chance(50); bool one=nf==nd; J doms=J::arr(),files=J::arr(); std::vector<Node> D((size_t)nd); Arena B; for(int d=0;d<nd;d++){ domain(D[(size_t)d],g,B,-1,false,true); D[(size_t)d]["state/domain_id"].reset(); D[(size_t)d]["state/domain_id"]=d; doms.push(flat(D[(size_t)d])); }
      int wf=g.pick(std::vector<int>{0,2,4,6,9}),wt=g.pick(std::vector<int>{0,3,6}); auto num=[](int w,int x){ char bb[40]; if(w) snprintf(bb,40,"%0*d",w,x); else snprintf(bb,40,"%d",x); return std::string(bb); }; auto pct=[](int w){ return w?"%0"+std::to_string(w)+"d":std::string("%d"); }; auto br=[](const std::string&n,int w){ return "{"+n+":"+(w?"0"+std::to_string(w):std::string())+"d}"; };
      Node map; relay::io::blueprint::gen_domain_to_file_map(nd,nf,map); index_t_accessor d2f=map["global_domain_to_file"].value(); std::vector<int> f((size_t)nd); for(int d=0;d<nd;d++) f[(size_t)d]=(int)d2f[d]; if(!legacy) for(int d=0;d<nd;d++) f[(size_t)d]=one?d:g.below(nf); std::string tail=g.chance(50)?"_z":"";
      std::set<std::string> made; Node root; J op=J::obj(); std::string rootname=stem+".root"; bool slash=g.chance(50); Rng gg(g.next());
      if(RK()==0){ mkdir((dir+"/"+stem).c_str(),0700); std::map<std::string,Node> F; for(int d=0;d<nd;d++){ std::string fn=stem+"/p"+num(wf,f[(size_t)d])+tail+"."+proto; F[fn]["t"+num(wt,d)+"q"]["mesh"].set(D[(size_t)d]); made.insert(fn); } for(auto&x:F) relay::io::save(x.second,dir+"/"+x.first,proto);
        Node md; for(int d=0;d<nd;d++) md.append().set_external(D[(size_t)d]); blueprint::mesh::generate_index(md,"mesh",nd,root["blueprint_index/mesh"]); root["protocol/name"]=proto; root["protocol/version"]="0";
        if(legacy){ root["number_of_files"]=nf; root["number_of_trees"]=nd; root["file_pattern"]=stem+"/p"+pct(wf)+tail+"."+proto; root["tree_pattern"]="/t"+pct(wt)+"q"+(slash?"/":""); }
        else { root["blueprint_index/mesh/state/partition_pattern"]=stem+"/p"+br("file",wf)+tail+"."+proto+":/t"+br("domain",wt)+"q"+(slash?"/":""); std::vector<int> o; for(int d=0;d<nd;d++) o.push_back(d); for(int i=nd;i>1;i--) std::swap(o[(size_t)i-1],o[(size_t)(gg.next()%(uint64_t)i)]); IV ff,dd; for(int d:o){ ff.push_back(f[(size_t)d]); dd.push_back(d); } Arena C; put_num(root["blueprint_index/mesh/state/partition_map/file"],"int64",ff,gg,C,false); put_num(root["blueprint_index/mesh/state/partition_map/domain"],"int64",dd,gg,C,false); }
        relay::io::save(root,dir+"/"+rootname,proto); made.insert(rootname); }
      J out=J::obj(); out.set("ok",true); op.set("op","foreign").set("root",rootname).set("name","mesh").set("proto",proto).set("doms",doms).set("legacy",legacy).set("new",J::list(std::vector<std::string>(made.begin(),made.end()))).set("out",out); if(RK()==0) put(op); roots.push_back(rootname); rnames[rootname]={"mesh"}; rproto[rootname]=proto; vsync(); }
  }
}
int main(int argc,char**argv){
#ifdef VH_PAR
  MPI_Init(&argc,&argv);
#endif
  quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):600); char d[64]="/tmp/vh_bpio_XXXXXX"; if(RK()==0&&!mkdtemp(d)) return 99;
#ifdef VH_PAR
  MPI_Bcast(d,64,MPI_CHAR,0,MPI_COMM_WORLD);
#endif
  dir=d; if(argc<7||std::string(argv[1])!="random"||chdir(d)) return 99; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs; if(RK()==0) for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5); history(i,g,[&](const J&e){ if(RK()) return; FILE*f=fs[(size_t)(i%S)]; fprintf(f,"%s\n",e.str().c_str()); fflush(f); }); vsync(); }
  if(RK()==0){ for(FILE*f:fs) fclose(f); if(chdir("/")==0){ wipe(); rmdir(dir.c_str()); } }
#ifdef VH_PAR
  MPI_Finalize();
#endif
  return 0;
}
