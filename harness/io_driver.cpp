// Histories of relay::io save/load calls and IOHandle calls on a scratch
// directory, recorded for IoModel.tla.
#include "vh_fun.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_hdf5.hpp"
#include "conduit_utils.hpp"
using namespace vh; using namespace conduit;
static std::string dir;
static const std::vector<std::string> EXT={"conduit_bin","json","conduit_json","conduit_base64_json","yaml","hdf5"};
static std::string fname(const std::string&f,const std::string&p){ return dir+"/"+f+"."+(p=="conduit_silo"?"silo":p); }
struct World { relay::io::IOHandle h[2]; };
static void wipe(){ for(const char*f:{"f","g"}) for(size_t i=0;i<EXT.size();i++){ std::string p=fname(f,EXT[i]); unlink(p.c_str()); unlink((p+"_json").c_str()); unlink(fname(f,"conduit_silo").c_str()); } }
static J vt(const Node&n){ return vtree(n); }
static J names(const std::vector<std::string>&v){ return J::list(v); }
static void opts_of(const J&op,Node&o){ if(op["mode"].s!="") o["mode"]=op["mode"].s; }
static void hopt(const J&op,Node&o){ if(op["h5"].i>=1){ o["hdf5/chunking/threshold"]=op["h5"].i==1?8:64; o["hdf5/chunking/chunk_size"]=16; o["hdf5/chunking/enabled"]=op["h5"].i<3?"true":"false"; o["hdf5/compact_storage/enabled"]=op["h5"].i==2?"false":"true"; o["hdf5/chunking/compression/method"]="gzip"; o["hdf5/chunking/compression/level"]=5; } }
static J exec(World&w,const J&op){
  const std::string o=op["op"].s; J r=J::obj(); r.set("ok",true).set("res",J::arr()); Arena A; Node node,opts;
  bool hasdest=op.has("dest"); if(hasdest) build(node,op["dest"],A); if(op.has("src")) build(node,op["src"],A);
  try{
    if(o=="save"||o=="merge"||o=="load"||o=="loadm"){
      std::string p=fname(op["file"].s,op["proto"].s); if(op["sub"].s!="") p+=":"+op["sub"].s; if(op["proto"].s=="conduit_silo") p+=":obj"; hopt(op,opts); int v=(int)op["via"].i; std::string pr=op["proto"].s;
      if(o=="save"){ if(v==0) relay::io::save(node,p); else if(v==1) relay::io::save(node,p,pr); else if(v==2) relay::io::save(node,p,pr,opts); else relay::io::save(node,p,opts); }
      if(o=="merge"){ if(v==0) relay::io::save_merged(node,p); else if(v==1) relay::io::save_merged(node,p,pr); else if(v==2) relay::io::save_merged(node,p,pr,opts); else relay::io::save_merged(node,p,opts); }
      if(o=="load"){ if(v==0) relay::io::load(p,node); else if(v==1) relay::io::load(p,pr,node); else if(v==2) relay::io::load(p,pr,opts,node); else relay::io::load(p,opts,node); }
      if(o=="loadm"){ if(v==0) relay::io::load_merged(p,node); else if(v==1) relay::io::load_merged(p,pr,node); else if(v==2) relay::io::load_merged(p,pr,opts,node); else relay::io::load_merged(p,opts,node); }
    } else {
      relay::io::IOHandle&h=w.h[op["h"].i];
      if(o=="open"){ std::string p=fname(op["file"].s,op["proto"].s); opts_of(op,opts); hopt(op,opts); int v=(int)op["via"].i; if(v==0&&op["mode"].s==""&&op["h5"].i==0) h.open(p); else if(v==1&&op["mode"].s==""&&op["h5"].i==0) h.open(p,op["proto"].s); else if(v==2) h.open(p,op["proto"].s,opts); else h.open(p,opts); }
      if(o=="close") h.close();
      if(o=="isopen") r.set("res",J::arr().push(J(h.is_open())));
      if(o=="read"){ if(op["path"].s==""&&op["via"].i) h.read(node); else h.read(op["path"].s,node); }
      if(o=="write"){ if(op["path"].s=="") h.write(node); else h.write(node,op["path"].s); }
      if(o=="remove") h.remove(op["path"].s);
      if(o=="list"){ std::vector<std::string> v; v.push_back("junk"); if(op["path"].s=="") h.list_child_names(v); else h.list_child_names(op["path"].s,v); r.set("res",names(v)); }
      if(o=="has") r.set("res",J::arr().push(J(h.has_path(op["path"].s))));
    }
  }catch(conduit::Error&e){ r.set("ok",false); if(getenv("VH_WHY")) r.set("why",e.message()); }
  r.set("node",vt(node)); return r;
}
// ------------------------------------------------------------ generation
struct Gen { Rng&g; bool plain,h5;
  J leaf(){ TreeOpts T; T.types=num_types(); T.types.push_back("char8_str"); T.maxn=4; T.layout=true; if(plain){ T.types={"int64","float64","char8_str"}; T.zero=false; T.wide=false; T.strmax=4; T.layout=true; }
    T.zero=false; if(!plain&&g.chance(15)) T.zero=true; for(;;){ J l=rand_leaf(g,T); if(l["t"].s=="char8_str"){ l.set("s",1); if(plain&&l["v"].size()==1) continue; } if(l["t"].s=="float64"&&0) continue; return l; } }
  J obj(int d){ J j=kind_j("o"),nm=J::arr(),ch=J::arr(); static const std::vector<std::string> N={"a","b","c","o","p","l","m"}; std::vector<std::string> left=N; int c=g.range(plain?1:(g.chance(10)?0:1),3); for(int i=0;i<c;i++){ size_t k=(size_t)g.below((int)left.size()); std::string n=left[k]; left.erase(left.begin()+(long)k); nm.push(J(n)); ch.push(any(n,d-1)); } j.set("nm",nm).set("ch",ch); return j; }
  J any(const std::string&n,int d){ if(g.chance(6)) return leaf(); if(!plain&&g.chance(4)) return kind_j("e"); if(n=="o"||n=="p") return d>0?obj(d):leaf(); if((n=="l"||n=="m")&&d>0) return list(d); return leaf(); }
  J list(int d){ J j=kind_j("l"),ch=J::arr(); int c=g.range(plain?1:(g.chance(10)?0:1),3); for(int i=0;i<c;i++){ J x=d>1&&g.chance(50)?obj(d-1):leaf(); if(plain&&x["k"].s=="d"&&x["t"].s!="char8_str") x=d>0?obj(0):x; ch.push(x); } j.set("ch",ch); return j; }
  J root(){ if(g.chance(4)) return leaf(); if(g.chance(h5?0:3)&&!plain) return kind_j("e"); return obj(2); }
  std::string path(bool e){ static const std::vector<std::string> P={"a","o","o/p","o/a","p/b","l","b","o/p/c","p","o/zz","nn/a","c","p/o"}; if(e&&g.chance(35)) return ""; return g.pick(P); }
  J at(const std::string&p){ std::string n=p.substr(p.rfind('/')==std::string::npos?0:p.rfind('/')+1); return any(n,1); }
};
static std::string pickproto(Rng&g){ if(g.chance(40)) return "hdf5"; return g.pick(EXT); }
static int history(Rng&g,const std::string&prof,std::function<void(const J&)> put){
  wipe(); World w; J b=J::obj(); b.set("op","begin"); put(b); std::map<std::string,std::string> pr; pr["f"]=pickproto(g); pr["g"]=g.chance(50)?pr["f"]:pickproto(g);
  bool handles=prof=="handle"; if(!handles&&g.chance(12)) pr["g"]="conduit_silo"; int len=g.range(6,22); int hopen[2]={0,0}; std::string hf[2];
  auto run=[&](J op){ if(!op.has("h5")) op.set("h5",0); if(!op.has("via")) op.set("via",g.below(4)); if(!op.has("mode")) op.set("mode",""); for(const char*k:{"file","proto","sub","path"}) if(!op.has(k)) op.set(k,""); if(!op.has("h")) op.set("h",0);
    Node o1,o2,oi; relay::io::hdf5_options(o1); J r=exec(w,op); relay::io::hdf5_options(o2); J node=r["node"]; J ev=J::obj(); for(size_t i=0;i<op.o.size();i++) if(op.o[i].first!="dest"&&op.o[i].first!="src") ev.set(op.o[i].first,op.o[i].second);
    Node t; Arena A; if(op.has("dest")) build(t,op["dest"],A); if(op.has("src")) build(t,op["src"],A); for(const char*k:{"sub","path"}){ J a=J::arr(); std::stringstream ss(ev[k].s); std::string x; while(std::getline(ss,x,(char)47)) a.push(J(x)); ev.set(k,a); } ev.set("arg",vt(t)).set("ok",r["ok"]).set("res",r["res"]).set("post",node).set("same",!o1.diff(o2,oi,0.0)); if(r.has("why")) ev.set("why",r["why"]); put(ev); return r["ok"].b; };
  auto inuse=[&](const std::string&f){ for(int i=0;i<2;i++) if(hopen[i]&&hf[i]==f) return true; return false; };
  for(int s=0;s<len;s++){ std::string f=g.chance(70)?"f":"g"; std::string p=pr[f]; Gen G{g,p=="json"||p=="yaml",p=="hdf5"}; J op=J::obj(); op.set("file",f).set("proto",p);
    int q=g.below(100);
    if(!handles||q<15){ if(inuse(f)) continue; op.set("sub",p=="conduit_silo"?"":G.path(true)); if(g.chance(30)) op.set("h5",g.range(1,3)); int k=g.below(4);
      if(k<2){ bool save=k==0||false; J t=op["sub"].s==""?G.root():G.at(op["sub"].s); if(p=="conduit_silo"){ Node z; Arena A; build(z,t,A); if(z.total_bytes_compact()==0) continue; } op.set("op",save&&g.chance(60)?"save":"merge").set("src",t); run(op); }
      else { Gen D{g,false,false}; op.set("op",k==2?"load":"loadm").set("dest",g.chance(40)?kind_j("e"):op["sub"].s==""?D.obj(2):D.at(op["sub"].s)); run(op); } continue; }
    int h=g.below(2);
    if(!hopen[h]){ if(g.chance(8)){ op.set("op",g.pick(std::vector<std::string>{"read","write","remove","list","has","isopen","close"})).set("h",h).set("path","a"); if(op["op"].s=="read"||op["op"].s=="write") op.set("src",G.leaf()); run(op); continue; }
      if(inuse(f)) continue; op.set("op","open").set("h",h).set("mode",g.pick(std::vector<std::string>{"","","","r","w","rw","wt","rwt","rwa","wa","x","wat"})); if(g.chance(20)) op.set("h5",g.range(1,3)); if(run(op)){ hopen[h]=1; hf[h]=f; } else { J c=J::obj(); c.set("op","close").set("h",h); run(c); } continue; }
    f=hf[h]; p=pr[f]; Gen H{g,p=="json"||p=="yaml",p=="hdf5"}; op.set("file",f).set("proto",p).set("h",h);
    if(q<25){ op.set("op","close"); hopen[h]=0; run(op); if(g.chance(70)){ J l=J::obj(); l.set("op","load").set("file",f).set("proto",p).set("dest",kind_j("e")); run(l); } continue; }
    if(q<30){ op.set("op","isopen"); run(op); continue; }
    if(q<60){ std::string pp=H.path(true); op.set("op","write").set("path",pp).set("src",pp==""?H.root():H.at(pp)); run(op); continue; }
    if(q<75){ std::string pp=H.path(true); Gen D{g,false,false}; op.set("op","read").set("path",pp).set("dest",g.chance(40)?kind_j("e"):pp==""?D.obj(2):D.at(pp)); run(op); continue; }
    if(q<85){ op.set("op","remove").set("path",H.path(false)); run(op); continue; }
    if(q<93){ op.set("op","has").set("path",H.path(false)); run(op); continue; }
    op.set("op","list").set("path",H.path(true)); run(op);
  }
  for(int h=0;h<2;h++) if(hopen[h]){ J op=J::obj(); op.set("op","close").set("h",h); run(op); }
  for(const char*f:{"f","g"}){ J l=J::obj(); l.set("op","load").set("file",f).set("proto",pr[f]).set("dest",kind_j("e")); run(l); }
  return 0;
}
int main(int argc,char**argv){
  quiet(); signal(SIGALRM,fun_alarm); alarm(600); char d[]="/tmp/vh_io_XXXXXX"; if(!mkdtemp(d)) return 99; dir=d;
  if(argc<7||std::string(argv[1])!="random") return 99; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]); std::vector<FILE*> fs; for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
  for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5); FILE*f=fs[(size_t)(i%S)]; history(g,argv[2],[&](const J&e){ fprintf(f,"%s\n",e.str().c_str()); fflush(f); }); }
  for(FILE*f:fs) fclose(f); wipe(); rmdir(dir.c_str()); return 0;
}
