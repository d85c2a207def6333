// Driver for spec/Layout.tla: schema text, layouts, compaction, files.
#include "vh_fun.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
using namespace vh; using namespace conduit;
static std::string dir;
static std::string slurp(const std::string&f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
// ---- text
static std::string q(const std::string&s){ return "\""+s+"\""; }
static std::string js(const J&t){
  const std::string k=t["k"].s;
  if(k=="o"){ std::string r="{"; for(size_t i=0;i<t["ch"].size();i++) r+=(i?", ":"")+q(t["nm"].at(i).s)+": "+js(t["ch"].at(i)); return r+"}"; }
  if(k=="l"){ std::string r="["; for(size_t i=0;i<t["ch"].size();i++) r+=(i?", ":"")+js(t["ch"].at(i)); return r+"]"; }
  if(k=="r") return "{\"dtype\": "+js(t["ch"].at(0))+", \"length\": "+std::to_string(t["n"].i)+"}";
  if(t["st"].s=="str") return q(t["t"].s);
  std::string r="{\"dtype\": "+q(t["t"].s); if(t["st"].s!="none") r+=", "+q(t["st"].s)+": "+std::to_string(t["n"].i);
  if(t["eo"].b) r+=", \"offset\": "+std::to_string(t["o"].i); if(t["es"].b) r+=", \"stride\": "+std::to_string(t["s"].i);
  if(t["en"].s!="default") r+=", \"endianness\": "+q(t["en"].s); return r+"}"; }
static std::string ya(const J&t,int in){ // block style, ends with newline
  const std::string k=t["k"].s; std::string p((size_t)in,' ');
  if(k=="o"&&t["ch"].size()){ std::string r; for(size_t i=0;i<t["ch"].size();i++) r+="\n"+p+t["nm"].at(i).s+": "+ya(t["ch"].at(i),in+2); return r; }
  if(k=="l"&&t["ch"].size()){ std::string r; for(size_t i=0;i<t["ch"].size();i++) r+="\n"+p+"- "+ya(t["ch"].at(i),in+2); return r; }
  if(k=="r") return "\n"+p+"dtype: "+ya(t["ch"].at(0),in+2)+"\n"+p+"length: "+std::to_string(t["n"].i);
  return js(t); }
static void prog(const J&t,Schema&s){ // a schema built by calls
  const std::string k=t["k"].s;
  if(k=="o"){ s.set(DataType::object()); for(size_t i=0;i<t["ch"].size();i++) prog(t["ch"].at(i),s.add_child(t["nm"].at(i).s)); }
  else if(k=="l"){ s.set(DataType::list()); for(size_t i=0;i<t["ch"].size();i++) prog(t["ch"].at(i),s.append()); }
  else if(k=="d"){ idx_t id=DataType::name_to_id(t["t"].s); s.set(DataType(id,t["n"].i,t["o"].i,t["s"].i,DataType::default_bytes(id),t["en"].s=="big"?Endianness::BIG_ID:t["en"].s=="little"?Endianness::LITTLE_ID:Endianness::DEFAULT_ID)); } }
// ---- projections
static J sch(const Schema&s){ J j=J::obj(),nm=J::arr(),ch=J::arr(); const DataType&d=s.dtype(); std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d";
  if(k=="o"||k=="l") for(idx_t i=0;i<s.number_of_children();i++){ if(k=="o") nm.push(J(s.child_name(i))); ch.push(sch(s.child(i))); }
  bool l=k=="d"; j.set("k",k).set("nm",nm).set("ch",ch).set("t",l?d.name():std::string("")).set("n",l?(long long)d.number_of_elements():0LL).set("o",l?(long long)d.offset():0LL).set("s",l?(long long)d.stride():0LL).set("en",l?endian_name(d):std::string("")); return j; }
static J vals(const Node&n){ J j=J::obj(),nm=J::arr(),ch=J::arr(),v=J::arr(); const DataType&d=n.dtype(); std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d";
  if(k=="o"||k=="l") for(idx_t i=0;i<n.number_of_children();i++){ const Node&c=n.child(i); if(c.parent()!=&n||c.is_root()||&c.schema()!=&n.schema().child(i)||c.schema().parent()!=&n.schema()) k="unlinked"; if(d.is_object()) nm.push(J(n.child_names()[(size_t)i])); ch.push(vals(c)); }
  if(k=="d") for(idx_t i=0;i<d.number_of_elements();i++) v.push(bytes_json(n.element_ptr(i),(size_t)DataType::default_bytes(d.id())));
  j.set("k",k).set("nm",nm).set("t",k=="d"?d.name():std::string("")).set("ch",ch).set("v",v); return j; }
static void leaves(Node&n,std::vector<Node*>&v){ if(n.dtype().is_object()||n.dtype().is_list()) for(idx_t i=0;i<n.number_of_children();i++) leaves(n.child(i),v); else if(!n.dtype().is_empty()) v.push_back(&n); }
static J lay(const Node&n,const char*base,const J&probes,bool viac){
  if(viac){ const conduit_node*c=c_node(&n); J o=J::obj(); o.set("strided",(long long)conduit_node_total_strided_bytes(c)).set("compact",(long long)conduit_node_total_bytes_compact(c)).set("is_compact",conduit_node_is_compact(c)!=0).set("contig",conduit_node_is_contiguous(c)!=0);
    const char*p=(const char*)n.contiguous_data_ptr(); o.set("ptr",p?(long long)(p-base):-1LL); J pr=J::arr(); for(size_t i=0;i<probes.size();i++) pr.push(J(conduit_node_contiguous_with_address(c,(void*)(base+probes.at(i).i))!=0)); o.set("probes",pr);
    std::vector<uint8> sv; n.serialize(sv); o.set("ser",bytes_json(sv.data(),sv.size())); Node d; conduit_node_compact_to(c,c_node(&d)); o.set("ctree",sch(d.schema())).set("cvals",vals(d)).set("ccontig",d.total_bytes_compact()==0||conduit_node_is_contiguous(c_node(&d))!=0).set("calloc",(long long)conduit_node_total_bytes_allocated(c_node(&d))); return o; }
  J o=J::obj(); o.set("strided",(long long)n.total_strided_bytes()).set("compact",(long long)n.total_bytes_compact()).set("is_compact",n.is_compact()).set("contig",n.is_contiguous());
  const char*p=(const char*)n.contiguous_data_ptr(); o.set("ptr",p?(long long)(p-base):-1LL); J pr=J::arr(); for(size_t i=0;i<probes.size();i++) pr.push(J(n.contiguous_with((void*)(base+probes.at(i).i)))); o.set("probes",pr);
  std::vector<uint8> sv; n.serialize(sv); o.set("ser",bytes_json(sv.data(),sv.size()));
  Node c; c["junk"]=3; n.compact_to(c); o.set("ctree",sch(c.schema())).set("cvals",vals(c)).set("ccontig",c.total_bytes_compact()==0||c.is_contiguous()).set("calloc",(long long)c.total_bytes_allocated()); return o; }
static J exec(const J&op){
  const std::string o=op["op"].s,via=op["via"].s; J out=J::obj(); const J&T=op["tree"];
  if(o=="schema"){
    Schema s; if(via=="call") prog(T,s); else if(via=="json") s.set(js(T)); else if(via=="ctor"){ Schema q(js(T)); s=q; } else if(via=="cstr"){ Schema q(js(T).c_str()); s=q; } else if(via=="asg") s=js(T); else if(via=="load"){ { std::ofstream f((dir+"/raw").c_str()); f<<js(T); } s.load(dir+"/raw"); } else if(via=="gjson") Generator(js(T),"conduit_json").walk(s); else if(via=="yflow") Generator(js(T),"conduit_yaml").walk(s); else Generator(ya(T,0),"conduit_yaml").walk(s);
    Schema r(s.to_json()),y,c,r2; s.save(dir+"/raw",3,1,"  "); r2.load(dir+"/raw"); std::ostringstream o1,o2; s.to_json_stream(o1,2,0," ","\n"); s.to_yaml_stream(o2); s.to_json_stream(dir+"/data"); bool same=o1.str()==s.to_json()&&slurp(dir+"/data")==s.to_json()&&s.to_string("json")==s.to_json()&&s.to_json_default()==s.to_json()&&o2.str()==s.to_yaml()&&s.to_string("yaml")==s.to_yaml()&&s.to_yaml_default()==s.to_yaml()&&s.to_string_default()==s.to_string(); s.to_yaml_stream(dir+"/data"); same=same&&slurp(dir+"/data")==s.to_yaml(); std::function<bool(const Schema&)> hole=[&](const Schema&x){ if(!x.dtype().is_object()&&!x.dtype().is_list()) return false; if(x.number_of_children()==0) return true; for(idx_t i=0;i<x.number_of_children();i++) if(hole(x.child(i))) return true; return false; };
    if(hole(s)) y=r; else Generator(s.to_yaml(),"conduit_yaml").walk(y); /* YAML text has no empty containers */ s.compact_to(c);
    out.set("schema",sch(s)).set("rt",sch(r)).set("rt2",sch(r2)).set("same",same).set("rty",sch(y)).set("strided",(long long)s.total_strided_bytes()).set("compact",(long long)s.total_bytes_compact()).set("is_compact",s.is_compact()).set("ctree",sch(c)); return out; }
  std::vector<char> mem(op["mem"].size()+1); for(size_t i=0;i<op["mem"].size();i++) mem[i]=(char)op["mem"].at(i).i; char*b=mem.data(); Schema ps; if(via.substr(0,1)!="g") prog(T,ps);
  auto flip=[&]{ for(size_t i=0;i<op["mem"].size();i++) mem[i]=(char)~mem[i]; };
  if(o=="bind"){
    Node n; if(op["pre"].b) n["old/child"]=7;
    std::string txt=(via=="gyaml"||via=="geyaml")?ya(T,0):js(T);
    if(via=="ext") n.set_external(ps,b); else if(via=="set") n.set(ps,b);
    else if(via=="extc"){ Node m(ps,b,true); n.swap(m); } else if(via=="setc"){ Node m(ps,b,false); n.swap(m); }
    else if(op["c"].b&&(via=="gjson"||via=="gyaml")) conduit_node_generate(c_node(&n),txt.c_str(),via=="gjson"?"conduit_json":"conduit_yaml",b); else if(op["c"].b) conduit_node_generate_external(c_node(&n),txt.c_str(),via=="gejson"?"conduit_json":"conduit_yaml",b);
    else if(op["pre"].b&&via=="gjson"){ Node m(txt,b,false); n.swap(m); } else if(op["pre"].b&&via=="gejson"){ Node m(txt,b,true); n.swap(m); } else if(via=="gjson") n.generate(txt,"conduit_json",b); else if(via=="gejson") n.generate_external(txt,"conduit_json",b); else if(via=="gyaml") n.generate(txt,"conduit_yaml",b); else n.generate_external(txt,"conduit_yaml",b);
    out.set("v",vals(n)); const char*base=(via=="set"||via=="setc")?(const char*)n.data_ptr():b; J L=J::arr(); if(via!="gjson"&&via!="gyaml") L.push(lay(n,base,op["probes"],op["c"].b)); flip(); out.set("v2",vals(n)).set("lay",L); return out; }
  // file
  Node n; n.set_external(ps,b); std::string f=dir+"/data"; n.save(f,"conduit_bin"); { Node l; l["x"]=1; if(op["pre"].b) l.load(f,"conduit_bin"); else l.load(f); out.set("v",vals(l)).set("owned",(long long)l.total_bytes_allocated()); }
  std::string s=slurp(f); out.set("file",bytes_json(s.data(),s.size()));
  { std::ofstream r((dir+"/raw").c_str(),std::ios::binary); r.write(b,(std::streamsize)op["mem"].size()); } { Node l; l.load(dir+"/raw",ps); out.set("raw",vals(l)).set("rowned",l.total_bytes_allocated()>0||l.total_bytes_compact()==0); }
  if(s.size()==0){ out.set("mm",out["v"]).set("mm2",out["v"]).set("mmb",0); return out; }
  { Node m; m.mmap(f); out.set("mm",vals(m)).set("mmb",(long long)m.total_bytes_mmaped()); std::vector<Node*> v; leaves(m,v); for(size_t i=0;i<v.size();i++){ char*p=(char*)v[i]->element_ptr(0); for(idx_t k=0;k<v[i]->total_bytes_compact();k++) p[k]=(char)~p[k]; } }
  { Node l; l.load(f,"conduit_bin"); out.set("mm2",vals(l)); }
  return out;
}
// ---- generation
struct G { Rng&g; bool text,big,empt; long long run=0,top=0; 
  J base(const std::string&k){ J j=J::obj(); j.set("k",k).set("nm",J::arr()).set("ch",J::arr()).set("t","").set("n",0).set("o",0).set("s",0).set("en","").set("eo",true).set("es",true).set("st",""); return j; }
  int mode=0; // 0 explicit random, 1 packed in order, 2 packed with gaps
  J leaf(){ J j=base("d"); std::vector<std::string> T=num_types(); T.push_back("char8_str"); std::string t=g.pick(T); int w=width_of(t); int n=g.chance(10)?0:g.range(1,4); std::string st=g.chance(70)?"number_of_elements":"length"; if(text&&g.chance(25)){ n=1; st=g.chance(50)?"str":"none"; } if(n==0) st="number_of_elements";
    bool eo=!text||g.chance(40),es=!text||g.chance(40); if(st=="str") eo=es=false; long long s=w,o=0; if(es&&mode!=1) s=g.chance(40)?w:w*g.range(1,3)+(g.chance(20)?g.below(3):0); long long ext=n<1?0:s*(n-1)+w;
    if(mode==0) o=g.below(40); else { o=run; if(mode==2&&g.chance(30)) o+=g.range(1,4); if(g.chance(5)) o=g.below(20); } run=o+ext; top=std::max(top,std::max(run,o+ext)+64);
    std::string en="default"; if(st!="str"&&big&&g.chance(25)) en=g.chance(50)?"big":"little";
    j.set("t",t).set("n",n).set("o",o).set("s",s).set("en",en).set("eo",eo).set("es",es).set("st",st); return j; }
  J tree(int depth){ int q=g.below(10); if(depth>0&&q<4){ J j=base("o"),nm=J::arr(),ch=J::arr(); std::vector<std::string> N={"a","b","c","d1","long_name"}; int c=g.range(0,3); for(int i=0;i<c;i++){ size_t k=(size_t)g.below((int)N.size()); nm.push(J(N[k])); N.erase(N.begin()+(long)k); ch.push(tree(depth-1)); } j.set("nm",nm).set("ch",ch); return j; }
    if(depth>0&&q<6){ J j=base("l"),ch=J::arr(); int c=g.range(0,3); for(int i=0;i<c;i++) ch.push(tree(depth-1)); j.set("ch",ch); return j; }
    if(depth>0&&q==6&&text){ J j=base("r"),ch=J::arr(); J c=tree(depth-1); if(c["k"].s=="o"&&c["ch"].size()){ ch.push(c); j.set("ch",ch).set("n",g.range(1,3)); top+=top*3+64; return j; } return c; }
    if(q==7&&empt) return base("e"); return leaf(); } };
static J gen(Rng&g,const std::string&prof){
  J op=J::obj(); G x{g,false,true,false}; x.mode=g.below(3); std::string via; 
  if(prof=="text"){
    if(g.chance(45)){ via=g.pick(std::vector<std::string>{"call","json","ctor","gjson","yflow","yblock","cstr","asg","load"}); x.text=via!="call"; J t=x.tree(g.range(0,3)); op.set("op","schema").set("via",via).set("tree",t); return op; }
    via=g.pick(std::vector<std::string>{"gjson","gejson","gyaml","geyaml"}); x.text=true; }
  else { via=g.pick(std::vector<std::string>{"ext","extc","set","setc"}); x.empt=true; }
  bool file=prof=="files"; if(file){ x.empt=false; x.big=false; }
  J t=x.tree(g.range(0,3)); long long need=x.top*2+300; if(need>2000) return J();
  long long lim=prof=="text"?need:x.top+8; J mem=J::arr(); for(long long i=0;i<lim;i++) mem.push(J(g.below(256)));
  J pr=J::arr(); for(int i=0;i<3;i++) pr.push(J(g.below(12))); pr.push(J(0));
  op.set("op",file?"file":"bind").set("via",via).set("tree",t).set("mem",mem).set("probes",pr).set("pre",g.chance(50)).set("c",g.chance(25)); return op;
}
int main(int c,char**v){ char d[]="/tmp/vh_layout_XXXXXX"; if(!mkdtemp(d)) return 99; dir=d; int rc=fun_main(c,v,gen,exec); for(const char*f:{"/data","/data_json","/raw"}) unlink((dir+f).c_str()); rmdir(dir.c_str()); return rc; }
