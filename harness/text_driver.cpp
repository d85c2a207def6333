// Driver for spec/Text.tla: JSON and YAML text of trees.
#include "vh_fun.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
using namespace vh; using namespace conduit;
static std::string dir;
static J vals(const Node&n){ J j=J::obj(),nm=J::arr(),ch=J::arr(),v=J::arr(); const DataType&d=n.dtype(); std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d";
  if(k=="o"||k=="l") for(idx_t i=0;i<n.number_of_children();i++){ const Node&c=n.child(i); if(c.parent()!=&n||c.is_root()||&c.schema()!=&n.schema().child(i)||c.schema().parent()!=&n.schema()) k="unlinked"; if(d.is_object()) nm.push(J(n.child_names()[(size_t)i])); ch.push(vals(c)); }
  if(k=="d") for(idx_t i=0;i<d.number_of_elements();i++) v.push(bytes_json(n.element_ptr(i),(size_t)DataType::default_bytes(d.id())));
  j.set("k",k).set("nm",nm).set("t",k=="d"?d.name():std::string("")).set("ch",ch).set("v",v); return j; }
static J av(const std::string&k){ J j=J::obj(); j.set("k",k).set("nm",J::arr()).set("ch",J::arr()).set("neg",false).set("b",J::arr()); return j; }
static J err(const std::string&w){ J j=J::obj(); j.set("k","error: "+w).set("nm",J::arr()).set("t","").set("ch",J::arr()).set("v",J::arr()).set("neg",false).set("b",J::arr()); return j; }
// ---- our own strict JSON reader, to abstract values
struct Rd { const std::string&t; size_t p=0; bool bad=false;
  void ws(){ while(p<t.size()&&strchr(" \n\t\r",t[p])) p++; }
  bool eat(char c){ ws(); if(p<t.size()&&t[p]==c){ p++; return true; } return false; }
  std::string str(){ std::string r; p++; while(p<t.size()&&t[p]!='"'){ char c=t[p++]; if((unsigned char)c<0x20) bad=true; if(c=='\\'&&p<t.size()){ char d=t[p++]; switch(d){ case 'n': c='\n'; break; case 't': c='\t'; break; case 'b': c='\b'; break; case 'f': c='\f'; break; case 'r': c='\r'; break; case '"': case '\\': case '/': c=d; break; case 'u': c=(char)strtol(t.substr(p,4).c_str(),0,16); p+=4; break; default: bad=true; } } r+=c; } if(p>=t.size()) bad=true; p++; return r; }
  J val(){ ws(); if(p>=t.size()){ bad=true; return av("bad"); }
    if(t[p]=='{'){ p++; J r=av("obj"),nm=J::arr(),ch=J::arr(); if(!eat('}')) for(;;){ ws(); if(p>=t.size()||t[p]!='"'){ bad=true; break; } nm.push(J(str())); if(!eat(':')){ bad=true; break; } ch.push(val()); if(bad) break; if(eat(',')) continue; if(!eat('}')) bad=true; break; } r.set("nm",nm).set("ch",ch); return r; }
    if(t[p]=='['){ p++; J r=av("arr"),ch=J::arr(); if(!eat(']')) for(;;){ ch.push(val()); if(bad) break; if(eat(',')) continue; if(!eat(']')) bad=true; break; } r.set("ch",ch); return r; }
    if(t[p]=='"'){ std::string s=str(); J r=av("str"); r.set("b",bytes_json(s.data(),s.size())); return r; }
    if(t.compare(p,4,"null")==0){ p+=4; return av("null"); }
    size_t q=p; while(p<t.size()&&(isdigit((unsigned char)t[p])||strchr("+-.eE",t[p]))) p++; std::string s=t.substr(q,p-q); if(s.empty()){ bad=true; return av("bad"); }
    if(s.find_first_of(".eE")!=std::string::npos){ double d=strtod(s.c_str(),0); J r=av("float"); r.set("b",bytes_json(&d,8)); return r; }
    J r=av("int"); if(s[0]=='-'){ int64 x=strtoll(s.c_str(),0,10); r.set("neg",true).set("b",bytes_json(&x,8)); } else { uint64 x=strtoull(s.c_str(),0,10); r.set("b",bytes_json(&x,8)); } return r; }
};
// ---- text of an abstract value
static std::string sb(const J&b){ std::string s; for(size_t i=0;i<b.size();i++) s+=(char)b.at(i).i; return s; }
static std::string quo(const std::string&s,int style){ std::string r="\""; for(size_t i=0;i<s.size();i++){ char c=s[i]; switch(c){ case '"': r+="\\\""; break; case '\\': r+="\\\\"; break; case '\n': r+="\\n"; break; case '\t': r+="\\t"; break; case '\b': r+="\\b"; break; case '\f': r+="\\f"; break; case '\r': r+="\\r"; break; case '/': r+=style&1?"\\/":"/"; break; default: if((style&2)&&c=='a') r+="\\u0061"; else r+=c; } } return r+"\""; }
static std::string num(const J&a){ char t[64]; unsigned char b[8]; for(size_t i=0;i<8;i++) b[i]=(unsigned char)a["b"].at(i).i; if(a["k"].s=="float"){ double d; memcpy(&d,b,8); snprintf(t,64,"%.15g",d); if(!strpbrk(t,".en")) strcat(t,".0"); return t; } if(a["neg"].b){ int64 x; memcpy(&x,b,8); snprintf(t,64,"%lld",(long long)x); } else { uint64 x; memcpy(&x,b,8); snprintf(t,64,"%llu",(unsigned long long)x); } return t; }
static std::string txt(const J&a,int style,int in,bool yaml){
  const std::string k=a["k"].s; std::string nl=style&4?"\n"+std::string((size_t)in*2+2,' '):"", cm=(style&8)&&!yaml?" // it's a \"comment\", {x: [1\n":"";
  if(k=="obj"){ std::string r="{"; for(size_t i=0;i<a["ch"].size();i++){ std::string nm=a["nm"].at(i).s; bool word=!nm.empty(); for(size_t q=0;q<nm.size();q++) word&=isalpha((unsigned char)nm[q])||nm[q]=='_'||(q&&isdigit((unsigned char)nm[q])); r+=std::string(i?",":"")+cm+nl+(((style&16)&&word&&!yaml&&nm!="null"&&nm!="true"&&nm!="false")?nm:quo(nm,style))+": "+txt(a["ch"].at(i),style,in+1,yaml); } return r+nl+"}"; }
  if(k=="arr"){ std::string r="["; for(size_t i=0;i<a["ch"].size();i++) r+=std::string(i?",":"")+nl+txt(a["ch"].at(i),style,in+1,yaml); return r+nl+"]"; }
  if(k=="str") return quo(sb(a["b"]),yaml?style&2:style); if(k=="null") return yaml?"\"\"":"null"; if(k=="bool") return a["b"].at(0).i?"true":"false"; return num(a); }
static std::string ytxt(const J&a,int style,int in){ // block style
  const std::string k=a["k"].s; std::string p((size_t)in,' ');
  if(k=="obj"&&a["ch"].size()){ std::string r; for(size_t i=0;i<a["ch"].size();i++){ std::string nm=a["nm"].at(i).s; bool word=!nm.empty(); for(size_t q=0;q<nm.size();q++) word&=isalnum((unsigned char)nm[q])||nm[q]=='_'; r+="\n"+p+(word&&!(style&2)?nm:quo(nm,0))+": "+ytxt(a["ch"].at(i),style,in+2); } return r; }
  if(k=="arr"&&a["ch"].size()&&!(style&1)){ std::string r; for(size_t i=0;i<a["ch"].size();i++) r+="\n"+p+"- "+ytxt(a["ch"].at(i),style,in+2); return r; }
  return txt(a,0,0,true); }
static std::string slurp(const std::string&f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void shr(const Node&a,const Node&b,bool&ok){ if(a.dtype().is_object()||a.dtype().is_list()){ if(a.number_of_children()!=b.number_of_children()){ ok=false; return; } for(idx_t i=0;i<a.number_of_children();i++) shr(a.child(i),b.child(i),ok); } else if(a.dtype().number_of_elements()>0&&!a.dtype().is_empty()) ok=ok&&a.element_ptr(0)==b.element_ptr(0); }
static std::string emit(const Node&n,const std::string&proto,const std::string&via,const J&f){
  idx_t in=(idx_t)f["indent"].i,dp=(idx_t)f["depth"].i; std::string pad=f["pad"].s,eoe=f["eoe"].s; bool y=proto=="yaml"; std::string file=dir+"/t";
  if(via=="plain") return y?n.to_yaml(proto):n.to_json(proto);
  if(via=="args") return y?n.to_yaml(proto,in,dp,pad,eoe):n.to_json(proto,in,dp,pad,eoe);
  if(via=="string") return n.to_string(proto,in,dp,pad,eoe);
  if(via=="opts"){ Node o; o["protocol"]=proto; o["indent"]=in; o["depth"]=dp; o["pad"]=pad; o["eoe"]=eoe; return y?n.to_yaml(o):n.to_json(o); }
  Node O; O["protocol"]=proto; O["indent"]=in; O["depth"]=dp; O["pad"]=pad; O["eoe"]=eoe; auto own=[](char*c){ std::string r=c; free(c); return r; };
  if(via=="sopts") return n.to_string(O); if(via=="sstream"){ std::ostringstream s; n.to_string_stream(s,proto,in,dp,pad,eoe); return s.str(); } if(via=="sostream"){ std::ostringstream s; n.to_string_stream(s,O); return s.str(); }
  if(via=="sfile"){ n.to_string_stream(file,proto,in,dp,pad,eoe); return slurp(file); } if(via=="sofile"){ n.to_string_stream(file,O); return slurp(file); }
  if(via=="ofile"){ if(y) n.to_yaml_stream(file,O); else n.to_json_stream(file,O); return slurp(file); } if(via=="ostream"){ std::ostringstream s; if(y) n.to_yaml_stream(s,O); else n.to_json_stream(s,O); return s.str(); }
  if(via=="fargs"){ if(y) n.to_yaml_stream(file,proto,in,dp,pad,eoe); else n.to_json_stream(file,proto,in,dp,pad,eoe); return slurp(file); }
  if(via=="default"){ if(y) return in%2?n.to_yaml_default():n.to_string_default(); if(proto=="json") return n.to_json_default(); return n.to_json(proto); }
  if(via=="c"){ if(y) return own(in%2?conduit_node_to_yaml(c_node(&n)):conduit_node_to_string(c_node(&n))); if(proto=="json") return own(conduit_node_to_json(c_node(&n))); return own(conduit_node_to_json_with_options(c_node(&n),c_node(&O))); }
  if(via=="copts") return own(in%2?conduit_node_to_string_with_options(c_node(&n),c_node(&O)):y?conduit_node_to_yaml_with_options(c_node(&n),c_node(&O)):conduit_node_to_json_with_options(c_node(&n),c_node(&O)));
  if(via=="csave"){ conduit_node_save(c_node(const_cast<Node*>(&n)),file.c_str(),proto.c_str()); return slurp(file); }
  if(via=="stream"){ std::ostringstream s; if(y) n.to_yaml_stream(s,proto,in,dp,pad,eoe); else n.to_json_stream(s,proto,in,dp,pad,eoe); return s.str(); }
  if(via=="fstream"){ if(y) n.to_yaml_stream(file,proto); else n.to_json_stream(file,proto); return slurp(file); }
  n.save(file,proto); return slurp(file); }
static void readin(Node&n,const std::string&t,const std::string&proto,const std::string&how){
  std::string file=dir+"/r"; n["old/stuff"]=3;
  if(how=="parse") n.parse(t,proto); else if(how=="gen"){ Generator g(t,proto); g.walk(n); } else if(how=="generate") n.generate(t,proto);
  else if(how=="ggen"){ Generator g; g.set_schema(t); g.set_protocol(proto); n.generate(g); } else if(how=="gctor"){ Node m(Generator(t,proto),false); n.swap(m); } else if(how=="cparse") conduit_node_parse(c_node(&n),t.c_str(),proto.c_str()); else if(how=="cgenerate") conduit_node_generate(c_node(&n),t.c_str(),proto.c_str(),0);
  else if(how=="cload"){ { std::ofstream o(file.c_str(),std::ios::binary); o<<t; } conduit_node_load(c_node(&n),file.c_str(),proto.c_str()); }
  else { { std::ofstream o(file.c_str(),std::ios::binary); o<<t; } n.load(file,proto); } }
static J exec(const J&op){
  const std::string o=op["op"].s,proto=op["proto"].s; J out=J::obj(); Arena A; out.set("shared",false);
  try{
    if(o=="parse"){ std::string t=(proto=="yaml"&&op["block"].b)?ytxt(op["ast"],(int)op["style"].i,0):txt(op["ast"],(int)op["style"].i,0,proto=="yaml"); Node n; readin(n,t,proto,op["how"].s); out.set("v",vals(n)); return out; }
    Node n; build(n,op["src"],A); std::string t=emit(n,proto,op["via"].s,op["fmt"]);
    if(o=="emit"){ Rd r{t}; J v=r.val(); r.ws(); out.set("v",r.bad||r.p<t.size()?err("invalid JSON"):v); return out; }
    Node m; if(proto=="conduit_json_external"){ m["old"]=1; Generator g(t,"conduit_json"); if(op["how"].s=="gctor"){ Node x(g,true); m.swap(x); } else if(op["how"].s=="ggen") m.generate_external(g); else g.walk_external(m); bool ok=true; shr(n,m,ok); out.set("shared",ok); } else readin(m,t,proto,op["how"].s);
    out.set("v",vals(m)); return out;
  }catch(conduit::Error&e){ out.set("v",err(e.message().substr(0,200))); return out; }
}
// ---- generation
static void numlike(const std::string&s,J&nl){ if(s.empty()) return; char*e=0; double d=strtod(s.c_str(),&e); bool f=*e==0; e=0; long l=strtol(s.c_str(),&e,10); bool in=*e==0; if(!f&&!in) return; J b=bytes_json(s.data(),s.size()); for(size_t i=0;i<nl.size();i++) if(nl.at(i)["s"].str()==b.str()) return; J r=J::obj(); int64 li=l; r.set("s",b).set("int",in).set("i",bytes_json(&li,8)).set("f",bytes_json(&d,8)); nl.push(r); }
static void strings(const J&v,J&nl){ // value tree
  if(v["t"].s=="char8_str"){ std::string s; for(size_t i=0;i<v["v"].size();i++){ char c=(char)v["v"].at(i).at(0).i; if(!c) break; s+=c; } numlike(s,nl); } for(size_t i=0;i<v["ch"].size();i++) strings(v["ch"].at(i),nl); }
static void astrings(const J&a,J&nl){ if(a["k"].s=="str") numlike(sb(a["b"]),nl); for(size_t i=0;i<a["ch"].size();i++) astrings(a["ch"].at(i),nl); }
static double dec15(Rng&g){ static const char*T[]={"0.1","-0.0","0.0","1.0","123456789012345.0","1.5","-2.75","3.14159265358979","1e+20","1e-7","1.7976931348623e+308","2.2250738585072e-308","-9.87654321098765e+22","4.9406564584124e-300","1e+100","8.98846567431158e+307"}; if(g.chance(40)) return strtod(T[g.below(16)],0); if(g.chance(40)) return (double)g.range(-4000,4000)/16; char t[64]; snprintf(t,64,"%s%d.%07d%07de%d",g.chance(50)?"-":"",g.range(1,9),g.below(10000000),g.below(10000000),g.chance(70)?g.range(-20,20):g.range(-290,290)); return strtod(t,0); }
struct G { Rng&g; std::string proto;
  bool pure(){ return proto=="json"||proto=="yaml"; }
  std::string text(){ static std::vector<std::string> A={"a","b","Z","_"," ","\"","\\","/","\n","\t","\b","\f","\r","n","u","0","{","}","[","]",":",",","#","-","'","\xc3\xa9","//","\\n","%","&","*","|","!"}; static std::vector<std::string> N={"nan","inf","-inf","1","2.5","-7","1e3","true","null","~","no","0x10"," 3","12abc","","int32","infinity"};
    if(g.chance(25)) return g.pick(N); std::string r; int c=g.range(0,8); for(int i=0;i<c;i++) r+=g.pick(A); return r; }
  J leaf(){ std::vector<std::string> T=num_types(); T.push_back("char8_str"); T.push_back("char8_str"); std::string t=g.pick(T); int w=width_of(t); J v=J::arr();
    if(t=="char8_str"){ std::string s=text(); for(size_t i=0;i<s.size();i++) v.push(J(hex(&s[i],1))); v.push(J("00")); }
    else { int c=g.chance(10)?0:g.chance(50)?1:g.range(2,4); for(int i=0;i<c;i++){
      if(t=="float64"){ double d=dec15(g); if(g.chance(8)) d=g.chance(50)?INFINITY:g.chance(50)?-INFINITY:NAN; if(proto=="conduit_base64_json"||proto=="conduit_json_external"){ uint64 q=g.next(); if(g.chance(50)) memcpy(&d,&q,8); } v.push(J(hex(&d,8))); }
      else if(t=="float32"){ float f=(float)g.range(-4000,4000)/16; if(!pure()&&g.chance(50)){ uint32 q=(uint32)g.next(); memcpy(&f,&q,4); if(std::isnan(f)&&proto=="conduit_json") f=1; } if(g.chance(5)) f=g.chance(50)?INFINITY:NAN; v.push(J(hex(&f,4))); }
      else if(g.chance(50)) { unsigned long long q=g.next(); if(t=="uint64"&&(proto=="yaml"||(proto=="json"&&c!=1))) q>>=1; if(t=="uint64"&&pure()&&inlist) q>>=1; v.push(J(le((long long)q,w))); }
      else { bool u=t[0]=='u'; static const long long E[]={0,1,-1,127,-128,255,32767,-32768,65535,2147483647LL,-2147483648LL,4294967295LL,9223372036854775807LL}; long long x=E[g.below(13)]; if(u&&x<0&&w==8) x=-x; v.push(J(le(x,w))); } } }
    J j=leaf_j(t,v,0,w,"own"); layout_j(g,j,true); if(t=="char8_str") j.set("s",1); return j; }
  bool inlist=false;
  J tree(int depth){ int q=g.below(10);
    if(depth>0&&q<4){ J j=kind_j("o"),nm=J::arr(),ch=J::arr(); std::set<std::string> used; int c=g.chance(10)?0:g.range(1,3); for(int i=0;i<c;i++){ static std::vector<std::string> S={"a","b","c1","_x","long_name","a b","q\"q","b\\s","nl\nx","x/y","tab\t","a: b","#h","- d","null","12","","\xc3\xa9","[x]","{","'","a#","true","~","*p","&q","!t","%d","@","`","?","|",">","a:","a #b"," lead","trail ","comma, x"}; std::string s=g.pick(S); if(g.chance(60)) s=S[(size_t)g.below(5)]; if(!used.insert(s).second) continue; nm.push(J(s)); ch.push(tree(depth-1)); } j.set("nm",nm).set("ch",ch); return j; }
    if(depth>0&&q<7){ bool s=inlist; inlist=true; J j=kind_j("l"),ch=J::arr(); int c=g.chance(10)?0:g.range(1,3); for(int i=0;i<c;i++) ch.push(tree(depth-1)); j.set("ch",ch); inlist=s; return j; }
    if(q==7) return kind_j("e"); return leaf(); }
  J ast(int depth){ int q=g.below(10);
    if(depth>0&&q<3){ J r=av("obj"),nm=J::arr(),ch=J::arr(); std::set<std::string> used; int c=g.range(0,3); for(int i=0;i<c;i++){ static std::vector<std::string> S={"a","b","c1","_x","a b","q\"q","b\\s","x/y","nl\nx","k: v"}; std::string s=g.pick(S); if(!used.insert(s).second) continue; nm.push(J(s)); ch.push(ast(depth-1)); } if(proto=="yaml"&&!ch.size()) return av("null"); r.set("nm",nm).set("ch",ch); return r; }
    if(depth>0&&q<6){ J r=av("arr"),ch=J::arr(); int c=g.range(0,3); if(proto=="yaml"&&!c) c=1; bool s=inlist; inlist=true; bool nums=g.chance(40); for(int i=0;i<c;i++) ch.push(nums?number():ast(depth-1)); inlist=s; r.set("ch",ch); return r; }
    if(q==6) return av("null"); if(q==7&&proto=="json"){ J r=av("bool"); char b=(char)g.below(2); r.set("b",bytes_json(&b,1)); return r; }
    if(q==8){ std::string s=text(); J r=av("str"); r.set("b",bytes_json(s.data(),s.size())); return r; } return number(); }
  J number(){ if(g.chance(50)){ double d=dec15(g); J r=av("float"); r.set("b",bytes_json(&d,8)); return r; } J r=av("int"); int64 x=g.chance(50)?g.range(-9,9):(int64)g.next(); if(x<0&&g.chance(30)&&proto=="json"&&!inlist){ r.set("b",bytes_json(&x,8)); return r; } r.set("neg",x<0).set("b",bytes_json(&x,8)); return r; }
};
static J gen(Rng&g,const std::string&){
  J op=J::obj(),nl=J::arr(); for(const char*w:{"nan","-nan","inf","-inf"}) numlike(w,nl); int q=g.below(10); std::string proto=g.pick(std::vector<std::string>{"json","json","yaml","yaml","conduit_json","conduit_json","conduit_base64_json","conduit_json_external"});
  std::string how=g.pick(std::vector<std::string>{"parse","gen","generate","load","ggen","gctor","cparse","cgenerate","cload"});
  if(q<3){ proto=g.chance(50)?"json":"yaml"; G x{g,proto}; J a=x.ast(g.range(0,3)); bool blk=proto=="yaml"&&g.chance(60); if(proto=="yaml"&&a["k"].s!="obj"&&a["k"].s!="arr") return J(); astrings(a,nl); op.set("op","parse").set("proto",proto).set("how",how).set("ast",a).set("nl",nl).set("style",g.below(32)).set("block",blk); return op; }
  bool em=q<5; if(em) proto="json"; G x{g,proto}; J t=x.tree(g.range(0,3)); Node n; Arena A; build(n,t,A); J v=vals(n); strings(v,nl); J f=J::obj(); bool y=proto=="yaml";
  std::string via=g.pick(std::vector<std::string>{"plain","args","string","opts","stream","fstream","save","sopts","sstream","sostream","sfile","sofile","ofile","ostream","fargs","default","c","copts","csave"}); if((proto=="conduit_json_external")&&(via=="save"||via=="csave")) via="plain";
  f.set("indent",g.range(1,4)).set("depth",y?0:g.below(3)).set("pad"," ").set("eoe",y?"\n":g.pick(std::vector<std::string>{"\n"," ","","\r\n"}));
  if(y&&(n.dtype().is_empty()||((n.dtype().is_object()||n.dtype().is_list())&&n.number_of_children()==0))) return J(); /* no YAML text for nothing */
  op.set("op",em?"emit":"rt").set("proto",proto).set("via",via).set("how",how).set("fmt",f).set("src",t).set("tree",v).set("nl",nl); return op;
}
int main(int c,char**v){ char d[]="/tmp/vh_text_XXXXXX"; if(!mkdtemp(d)) return 99; dir=d; int rc=fun_main(c,v,gen,exec); for(const char*f:{"/t","/r","/t_json"}) unlink((dir+f).c_str()); rmdir(dir.c_str()); return rc; }
