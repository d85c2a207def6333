// Helpers for drivers of functional specifications: explicit trees (as JSON)
// built as conduit Nodes in any layout, random trees, the random/replay main.
#ifndef VH_FUN_HPP
#define VH_FUN_HPP
#include "vh.hpp"
#include <signal.h>
#include <cmath>
namespace vh {
// ------------------------------------------------------------ explicit trees
// {"k","nm","ch","t","v":[hex...],"f":[16*value...],"o","s","x","en"}
struct Arena { std::vector<std::vector<char>*> bufs; ~Arena(){ for(size_t i=0;i<bufs.size();i++) delete bufs[i]; } char*get(size_t n){ bufs.push_back(new std::vector<char>(n+16,(char)0xA5)); return &(*bufs.back())[0]; } };
inline int hexd(char c){ return c<='9'?c-'0':c-'a'+10; }
inline void unhex(const std::string&h,char*p){ for(size_t i=0;i+1<h.size();i+=2) p[i/2]=(char)(hexd(h[i])*16+hexd(h[i+1])); }
inline J leaf_j(const std::string&t,const J&v,long long o,long long s,const std::string&x){ J j=J::obj(); j.set("k","d").set("nm",J::arr()).set("ch",J::arr()).set("t",t).set("v",v).set("f",J::arr()).set("o",o).set("s",s).set("x",x).set("en","default"); return j; }
inline J kind_j(const std::string&k){ J j=J::obj(); j.set("k",k).set("nm",J::arr()).set("ch",J::arr()).set("t","").set("v",J::arr()).set("f",J::arr()).set("o",0).set("s",0).set("x","").set("en",""); return j; }
inline void build(Node&n,const J&j,Arena&A){
  const std::string&k=j["k"].s;
  if(k=="e"){ n.reset(); return; }
  if(k=="o"){ n.set(DataType::object()); for(size_t i=0;i<j["ch"].size();i++) build(n.add_child(j["nm"].at(i).s),j["ch"].at(i),A); return; }
  if(k=="l"){ n.set(DataType::list()); for(size_t i=0;i<j["ch"].size();i++) build(n.append(),j["ch"].at(i),A); return; }
  idx_t id=DataType::name_to_id(j["t"].s), w=DataType::default_bytes(id); idx_t c=(idx_t)j["v"].size(); idx_t o=j["o"].i,s=j["s"].i;
  char*p=A.get((size_t)(o+s*(c>0?c-1:0)+w)); for(idx_t i=0;i<c;i++) unhex(j["v"].at((size_t)i).s,p+o+s*i);
  idx_t en=j["en"].s=="big"?conduit::Endianness::BIG_ID:j["en"].s=="little"?conduit::Endianness::LITTLE_ID:conduit::Endianness::DEFAULT_ID;
  DataType d(id,c,o,s,w,en);
  if(j["x"].s=="ext") n.set_external(d,p); else n.set(d,p);
}
inline std::string le(long long v,int w){ unsigned char b[8]; for(int i=0;i<w;i++) b[i]=(unsigned char)(((unsigned long long)v)>>(8*i)); return hex(b,(size_t)w); }
struct TreeOpts { std::vector<std::string> types,names; int maxn=3,depth=2,width=3; bool wide=true,zero=true,layout=true,empty=true,lists=true,objects=true,big=false; int strmax=4; std::string chars="abAB"; };
inline const std::vector<std::string>&num_types(){ static std::vector<std::string> t={"int8","int16","int32","int64","uint8","uint16","uint32","uint64","float32","float64"}; return t; }
inline bool is_float(const std::string&t){ return t=="float32"||t=="float64"; }
inline int width_of(const std::string&t){ return (int)DataType::default_bytes(DataType::name_to_id(t)); }
inline std::string f_hex(const std::string&t,long long f16){ if(t=="float32"){ float x=(float)f16/16; return hex(&x,4);} double x=(double)f16/16; return hex(&x,8); }
inline void layout_j(Rng&g,J&j,bool vary){ int w=width_of(j["t"].s); long long o=0,s=w; std::string x="own"; if(vary){ int q=g.below(5); if(q==1) o=w*g.range(1,2); if(q==2) s=w*g.range(2,3); if(q==3){ o=w*g.below(3); s=w*g.range(1,3);} if(q==4){ o=g.below(4); s=w+g.below(3);} if(g.chance(50)) x="ext"; } j.set("o",o).set("s",s).set("x",x); }
inline J rand_leaf(Rng&g,const TreeOpts&T){
  std::string t=g.pick(T.types); int w=width_of(t); J v=J::arr(),f=J::arr(); int c=g.range(T.zero?0:1,T.maxn);
  if(t=="char8_str"){ c=g.range(0,T.strmax); for(int i=0;i<c;i++){ char ch=T.chars[(size_t)g.below((int)T.chars.size())]; v.push(J(hex(&ch,1))); } v.push(J("00")); }
  else for(int i=0;i<c;i++){ if(is_float(t)){ long long q=g.range(-40,40); f.push(J(q)); v.push(J(f_hex(t,q))); } else if(T.wide&&g.chance(40)){ unsigned long long b=g.next(); v.push(J(le((long long)b,w))); } else v.push(J(le(g.range(t[0]=='u'?0:-3,3),w))); }
  J j=leaf_j(t,v,0,w,"own"); j.set("f",f); layout_j(g,j,T.layout); if(T.big&&g.chance(30)) j.set("en",g.chance(50)?"big":"little"); return j;
}
inline J rand_tree(Rng&g,const TreeOpts&T,int depth){
  int q=g.below(10);
  if(depth>0&&q<4&&T.objects){ J j=kind_j("o"); int c=g.range(0,T.width); J nm=J::arr(),ch=J::arr(); std::vector<std::string> left=T.names; for(int i=0;i<c&&!left.empty();i++){ size_t k=(size_t)g.below((int)left.size()); nm.push(J(left[k])); left.erase(left.begin()+(long)k); ch.push(rand_tree(g,T,depth-1)); } j.set("nm",nm).set("ch",ch); return j; }
  if(depth>0&&q<6&&T.lists){ J j=kind_j("l"); int c=g.range(0,T.width); J ch=J::arr(); for(int i=0;i<c;i++) ch.push(rand_tree(g,T,depth-1)); j.set("ch",ch); return j; }
  if(q==9&&T.empty) return kind_j("e");
  return rand_leaf(g,T);
}
// a small change somewhere in the tree
inline J mutate(Rng&g,const TreeOpts&T,const J&j,int depth){
  const std::string k=j["k"].s; J r=j;
  if((k=="o"||k=="l")&&j["ch"].size()>0&&g.chance(75)){ size_t i=(size_t)g.below((int)j["ch"].size()); J ch=j["ch"]; ch.a[i]=mutate(g,T,ch.a[i],depth-1); r.set("ch",ch); return r; }
  if(k=="o"){ J ch=j["ch"],nm=j["nm"]; int q=g.below(3); if(q==0&&ch.size()){ size_t i=(size_t)g.below((int)ch.size()); ch.a.erase(ch.a.begin()+(long)i); nm.a.erase(nm.a.begin()+(long)i); } else if(q==1){ std::string nn=g.pick(T.names); bool has=false; for(size_t i=0;i<nm.size();i++) has|=nm.at(i).s==nn; if(!has){ nm.push(J(nn)); ch.push(rand_tree(g,T,depth>0?depth-1:0)); } } else if(ch.size()>1){ std::swap(ch.a[0],ch.a.back()); std::swap(nm.a[0],nm.a.back()); } r.set("ch",ch).set("nm",nm); return r; }
  if(k=="l"){ J ch=j["ch"]; if(g.chance(50)&&ch.size()) ch.a.pop_back(); else ch.push(rand_tree(g,T,depth>0?depth-1:0)); r.set("ch",ch); return r; }
  if(k=="e") return rand_tree(g,T,depth);
  std::string t=j["t"].s; int w=width_of(t); J v=j["v"],f=j["f"]; int q=g.below(5);
  if(t=="char8_str"){ if(v.size()>1&&q<3){ v.a[(size_t)g.below((int)v.size()-1)]=J("42"); } else if(q==3){ v.a.insert(v.a.begin(),J("41")); } else if(v.size()){ J z=v.a.back(); v.a.back()=J("41"); v.a.push_back(z); } }
  else if(q<3&&v.size()){ size_t i=q==0?v.size()-1:(size_t)g.below((int)v.size()); if(is_float(t)){ long long y=f.at(i).i+g.range(-3,3); f.a[i]=J(y); v.a[i]=J(f_hex(t,y)); } else { std::string h=v.at(i).s; size_t b=(size_t)g.below(w); h[2*b]=h[2*b]=='0'?'1':'0'; v.a[i]=J(h);} }
  else if(q==3){ if(is_float(t)){ f.push(J(8)); v.push(J(f_hex(t,8))); } else v.push(J(le(1,w))); }
  else if(v.size()){ v.a.pop_back(); if(is_float(t)) f.a.pop_back(); }
  r.set("v",v).set("f",f); layout_j(g,r,T.layout); return r;
}
// value projection in the same vocabulary (hex per element)
inline J seen(const Node&n){ return vtree(n); }

// ------------------------------------------------------------ main
inline void fun_alarm(int){ const char m[]="DRIVER-TIMEOUT\n"; if(write(2,m,sizeof(m)-1)){} _exit(86); }
// gen: make a call (JSON record with an "op" field); exec: perform it and return its outcome
inline int fun_main(int argc,char**argv,std::function<J(Rng&,const std::string&)> gen,std::function<J(const J&)> exec){
  quiet(); signal(SIGALRM,fun_alarm); alarm(getenv("VH_ALARM")?(unsigned)atoi(getenv("VH_ALARM")):900);
  std::string mode=argc>1?argv[1]:"";
  auto note=[](const std::string&f,const std::string&s){ FILE*c=fopen(f.c_str(),"w"); if(c){ fprintf(c,"%s\n",s.c_str()); fclose(c);} };
  if(mode=="random"){
    std::string prof=argv[2]; uint64_t seed=strtoull(argv[3],0,10); int N=atoi(argv[4]); std::string pre=argv[5]; int S=atoi(argv[6]);
    std::vector<FILE*> fs; for(int s=0;s<S;s++) fs.push_back(fopen((pre+std::to_string(s)+".ndjson").c_str(),"w"));
    for(int i=0;i<N;i++){ Rng g(seed*7919+(uint64_t)i*31+5); J op=gen(g,prof); if(op.k==J::NUL) continue; note(pre+"last",op.str()); J out=exec(op); op.set("out",out); fprintf(fs[(size_t)(i%S)],"%s\n",op.str().c_str()); }
    for(int s=0;s<S;s++) fclose(fs[(size_t)s]); return 0;
  }
  if(mode=="replay"){
    std::ifstream in(argv[2]); FILE*f=fopen(argv[3],"w"); std::string line;
    while(std::getline(in,line)){ if(line.empty()) continue; J b=J::parse(line); note(std::string(argv[3])+".last",line); J o=J::obj(); o.set("out",exec(b["h"].at(b["h"].size()-1))); fprintf(f,"%s\n",o.str().c_str()); }
    fclose(f); return 0;
  }
  fprintf(stderr,"usage\n"); return 99;
}
} // namespace vh
#endif
