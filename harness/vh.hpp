// Shared helpers of the conformance drivers: PRNG, JSON writer/reader,
// allocation tracking and the projection of a conduit::Node to the abstract
// state of spec/NodeModel.tla.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include "conduit.hpp"

namespace vh {
using conduit::Node;
using conduit::Schema;
using conduit::DataType;
typedef conduit::index_t idx_t;

//---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(seed^0x1234567ull){ uint64_t a=next(); s=a^(seed*0xD1342543DE82EF95ull); next(); s=next(); }
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
  int below(int n){ return n<=0?0:(int)(next()%(uint64_t)n); }
  int range(int a,int b){ return a+below(b-a+1); }
  bool chance(int pct){ return below(100)<pct; }
  template<class T> const T &pick(const std::vector<T>&v){ return v[(size_t)below((int)v.size())]; }
};

//---------------------------------------------------------------- JSON value
struct J {
  enum K {NUL,BOOL,INT,STR,ARR,OBJ} k;
  bool b; long long i; std::string s; std::vector<J> a; std::vector<std::pair<std::string,J> > o;
  J():k(NUL),b(false),i(0){}
  J(bool v):k(BOOL),b(v),i(0){}
  J(int v):k(INT),b(false),i(v){}
  J(long v):k(INT),b(false),i(v){}
  J(long long v):k(INT),b(false),i(v){}
  J(unsigned v):k(INT),b(false),i(v){}
  J(unsigned long v):k(INT),b(false),i((long long)v){}
  J(const char*v):k(STR),b(false),i(0),s(v){}
  J(const std::string&v):k(STR),b(false),i(0),s(v){}
  static J arr(){ J j; j.k=ARR; return j; }
  static J obj(){ J j; j.k=OBJ; return j; }
  template<class T> static J list(const std::vector<T>&v){ J j=arr(); for(size_t q=0;q<v.size();q++) j.a.push_back(J(v[q])); return j; }
  J &push(const J&v){ k=ARR; a.push_back(v); return *this; }
  J &set(const std::string&n,const J&v){ k=OBJ; for(size_t q=0;q<o.size();q++) if(o[q].first==n){o[q].second=v;return *this;} o.push_back(std::make_pair(n,v)); return *this; }
  bool has(const std::string&n) const { for(size_t q=0;q<o.size();q++) if(o[q].first==n) return true; return false; }
  const J& operator[](const std::string&n) const { for(size_t q=0;q<o.size();q++) if(o[q].first==n) return o[q].second; fprintf(stderr,"J: missing field %s\n",n.c_str()); fflush(0); _exit(99); }
  const J& at(size_t q) const { return a[q]; }
  size_t size() const { return a.size(); }
  static void esc(std::string&out,const std::string&s){
    out+='"';
    for(size_t q=0;q<s.size();q++){ unsigned char c=(unsigned char)s[q];
      if(c=='"'||c=='\\'){ out+='\\'; out+=(char)c; }
      else if(c<0x20||c>=0x7f){ char t[8]; snprintf(t,8,"\\u%04x",c); out+=t; }
      else out+=(char)c; }
    out+='"';
  }
  void dump(std::string&out) const {
    switch(k){
      case NUL: out+="null"; break;
      case BOOL: out+=b?"true":"false"; break;
      case INT: { char t[32]; snprintf(t,32,"%lld",i); out+=t; break; }
      case STR: esc(out,s); break;
      case ARR: out+='['; for(size_t q=0;q<a.size();q++){ if(q) out+=','; a[q].dump(out);} out+=']'; break;
      case OBJ: out+='{'; for(size_t q=0;q<o.size();q++){ if(q) out+=','; esc(out,o[q].first); out+=':'; o[q].second.dump(out);} out+='}'; break;
    }
  }
  std::string str() const { std::string t; dump(t); return t; }
  static J parse(const std::string&t){ size_t p=0; return parse(t,p); }
  static void ws(const std::string&t,size_t&p){ while(p<t.size()&&(t[p]==' '||t[p]=='\n'||t[p]=='\t'||t[p]=='\r')) p++; }
  static J parse(const std::string&t,size_t&p){
    ws(t,p); J r;
    if(t[p]=='{'){ r.k=OBJ; p++; ws(t,p); if(t[p]=='}'){p++;return r;}
      for(;;){ ws(t,p); J n=parse(t,p); ws(t,p); p++; J v=parse(t,p); r.o.push_back(std::make_pair(n.s,v)); ws(t,p); if(t[p]==','){p++;continue;} p++; return r; } }
    if(t[p]=='['){ r.k=ARR; p++; ws(t,p); if(t[p]==']'){p++;return r;}
      for(;;){ r.a.push_back(parse(t,p)); ws(t,p); if(t[p]==','){p++;continue;} p++; return r; } }
    if(t[p]=='"'){ r.k=STR; p++; while(t[p]!='"'){ if(t[p]=='\\'){ p++; if(t[p]=='u'){ r.s+=(char)strtol(t.substr(p+1,4).c_str(),0,16); p+=4;} else if(t[p]=='n') r.s+='\n'; else if(t[p]=='t') r.s+='\t'; else r.s+=t[p]; p++; } else r.s+=t[p++]; } p++; return r; }
    if(t.compare(p,4,"true")==0){ p+=4; return J(true);} 
    if(t.compare(p,5,"false")==0){ p+=5; return J(false);} 
    if(t.compare(p,4,"null")==0){ p+=4; return r;} 
    size_t q=p; if(t[p]=='-') p++; while(p<t.size()&&isdigit((unsigned char)t[p])) p++; return J((long long)atoll(t.substr(q,p-q).c_str()));
  }
};

inline J bytes_json(const void*p,size_t n){ J j=J::arr(); const unsigned char*c=(const unsigned char*)p; j.a.reserve(n); for(size_t i=0;i<n;i++) j.a.push_back(J((int)c[i])); return j; }
inline std::string hex(const void*p,size_t n){ static const char*d="0123456789abcdef"; std::string r; const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ r+=d[c[i]>>4]; r+=d[c[i]&15]; } return r; }

//---------------------------------------------------------------- errors
// make conduit errors exceptions, and be quiet about info / warnings
inline void quiet_info(const std::string&,const std::string&,int){}
inline void quiet(){ conduit::utils::set_info_handler(quiet_info); conduit::utils::set_warning_handler(quiet_info); }

//---------------------------------------------------------------- type helpers
inline std::string tname(idx_t id){ return DataType::id_to_name(id); }
inline std::string endian_name(const DataType&d){ return d.endianness()==conduit::Endianness::BIG_ID?"big":(d.endianness()==conduit::Endianness::LITTLE_ID?"little":"default"); }

//---------------------------------------------------------------- value tree
// value-only projection ("vtree"): kind, names, children, type, count, bytes of
// the elements in order.  Layout is not part of it.
inline J vtree(const Node&n){
  J j=J::obj(); const DataType d=n.dtype();
  std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d";
  j.set("k",k); J nm=J::arr(),ch=J::arr(),v=J::arr();
  if(k=="o"||k=="l"){
    // a child that does not know its parent, or whose schema is not the parent schema's child, is no part of a tree
    for(idx_t i=0;i<n.number_of_children();i++){ const Node&c=n.child(i); if(c.parent()!=&n||c.is_root()||&c.schema()!=&n.schema().child(i)||c.schema().parent()!=&n.schema()) j.set("k",k="unlinked"); if(k=="o") nm.push(J(n.child_names()[(size_t)i])); ch.push(vtree(c)); }
  }
  j.set("nm",nm).set("ch",ch);
  j.set("t",k=="d"?tname(d.id()):std::string(""));
  j.set("n",k=="d"?(long long)d.number_of_elements():0LL);
  if(k=="d"){ idx_t eb=DataType::default_bytes(d.id()); for(idx_t i=0;i<d.number_of_elements();i++) v.push(J(hex(n.element_ptr(i),(size_t)eb))); }
  j.set("v",v);
  return j;
}
} // namespace vh
#endif
