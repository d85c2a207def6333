// Driver for spec/Schemas.tla: histories of calls on one Schema.
#include "vh_fun.hpp"
using namespace vh; using namespace conduit;
static J nod(){ J d=J::obj(); d.set("t","").set("n",0).set("o",0).set("s",0).set("en",""); return d; }
static J lit(const std::string&k){ J j=J::obj(); j.set("k",k).set("nm",J::arr()).set("ch",J::arr()).set("d",nod()); return j; }
static DataType dt(const J&d){ idx_t id=DataType::name_to_id(d["t"].s); return DataType(id,d["n"].i,d["o"].i,d["s"].i,DataType::default_bytes(id),d["en"].s=="big"?Endianness::BIG_ID:d["en"].s=="little"?Endianness::LITTLE_ID:Endianness::DEFAULT_ID); }
static void mk(const J&t,Schema&s,int how){ std::string k=t["k"].s;
  if(k=="o"){ if(how&1) s.set((idx_t)DataType::OBJECT_ID); else s.set(DataType::object()); for(size_t i=0;i<t["ch"].size();i++) mk(t["ch"].at(i),s.add_child(t["nm"].at(i).s),how); }
  else if(k=="l"){ if(how&1) s=(idx_t)DataType::LIST_ID; else s.set(DataType::list()); for(size_t i=0;i<t["ch"].size();i++) mk(t["ch"].at(i),s.append(),how); }
  else if(k=="d"){ if(how&2) s=dt(t["d"]); else s.set(dt(t["d"])); } else { if(how&1) s.set((idx_t)DataType::EMPTY_ID); else s.reset(); } }
static J see(const Schema&s){ const DataType&d=s.dtype(); std::string k=d.is_object()?"o":d.is_list()?"l":d.is_empty()?"e":"d"; J nm=J::arr(),ch=J::arr(),dd=nod();
  if(k=="d") dd.set("t",d.name()).set("n",(long long)d.number_of_elements()).set("o",(long long)d.offset()).set("s",(long long)d.stride()).set("en",endian_name(d));
  bool ok=true; if(k=="o"||k=="l") for(idx_t i=0;i<s.number_of_children();i++){ const Schema&c=s.child(i); ok=ok&&c.parent()==&s&&!c.is_root()&&&s[i]==&c&&s.child_ptr(i)==&c; if(k=="o"){ std::string n=s.child_names()[(size_t)i]; ok=ok&&s.child_name(i)==n&&s.child_index(n)==i&&s.has_child(n)&&&s.child(n)==&c; nm.push(J(n)); } ch.push(see(c)); }
  ok=ok&&s.child_names().size()==(k=="o"?ch.size():0)&&s.number_of_children()==(idx_t)ch.size();
  J j=J::obj(); j.set("k",ok?k:std::string("broken")).set("nm",nm).set("ch",ch).set("d",dd); return j; }
struct G { Rng&g; std::vector<std::string> N={"a","b","c","dd","x y","e1"};
  J leaf(){ J j=lit("d"),d=nod(); std::vector<std::string> T={"int32","int64","float64","uint8","char8_str","int32"}; std::string t=g.pick(T); int w=width_of(t); d.set("t",t).set("n",g.range(0,3)).set("o",g.chance(60)?0:g.range(1,9)).set("s",g.chance(70)?w:w*2).set("en",g.chance(85)?"default":g.chance(50)?"big":"little"); j.set("d",d); return j; }
  J tree(int dep){ int q=g.below(10); if(dep>0&&q<4){ J j=lit("o"),nm=J::arr(),ch=J::arr(); std::vector<std::string> L=N; int c=g.range(0,3); for(int i=0;i<c;i++){ size_t k=(size_t)g.below((int)L.size()); nm.push(J(L[k])); L.erase(L.begin()+(long)k); ch.push(tree(dep-1)); } j.set("nm",nm).set("ch",ch); return j; }
    if(dep>0&&q<6){ J j=lit("l"),ch=J::arr(); int c=g.range(0,3); for(int i=0;i<c;i++) ch.push(tree(dep-1)); j.set("ch",ch); return j; }
    if(q==6) return lit("e"); return leaf(); } };
static std::string r_of(const Schema&s){ return s.path(); }
// perform call c; the schema may have been built by the calls before it
static std::string call(Schema&root,const J&c){
  Schema*s=&root; for(size_t i=0;i<c["at"].size();i++) s=&s->child((idx_t)c["at"].at(i).i-1); const Schema*cs=s; std::string o=c["c"].s,str=c["s"].s,p=c["ps"].s; int v=(int)c["v"].i; Schema L; const J&l=c["lit"]; bool haslit=l["k"].s!="none"; if(haslit) mk(l,L,v);
  if(o=="fetch"){ Schema&f=(v%3==0)?s->fetch(p):(v%3==1)?(*s)[p]:*s->fetch_ptr(p); std::string r=r_of(f); if(haslit){ if(v&4) f=L; else f.set(L); } return r; }
  if(o=="existing"){ switch(v%4){ case 0: return r_of(s->fetch_existing(p)); case 1: return r_of(cs->fetch_existing(p)); case 2: return r_of((*cs)[p]); default: return r_of(*cs->fetch_ptr(p)); } }
  if(o=="add") return r_of(s->add_child(str)); if(o=="append") return r_of(s->append()); if(o=="rmi"){ s->remove((idx_t)c["i"].i-1); return ""; } if(o=="rmp"){ s->remove(p); return ""; } if(o=="rmc"){ s->remove_child(str); return ""; } if(o=="rename"){ s->rename_child(str,c["s2"].s); return ""; }
  if(o=="set"){ if(l["k"].s=="d"&&(v&4)){ if(v&1) s->set(dt(l["d"])); else *s=dt(l["d"]); } else if(v%3==0){ Schema q(L); s->set(q); } else if(v%3==1) *s=L; else s->set(L); if(&root==s&&(v&8)){ Schema*self=s; *s=*self; } return ""; }
  if(o=="reset"){ s->reset(); return ""; } if(o=="has_child") return cs->has_child(str)?"1":"0"; if(o=="has_path") return cs->has_path((v&1?"/":"")+p)?"1":"0"; if(o=="child_index") return std::to_string(cs->child_index(str)); if(o=="child_name") return cs->child_name((idx_t)c["i"].i-1); if(o=="child") return v&1?r_of(s->child(str)):r_of(cs->child(str)); if(o=="name") return cs->name()+"|"+cs->path();
  if(o=="compatible") return cs->compatible(L)?"1":"0"; if(o=="equals") return cs->equals(L)?"1":"0"; return "?"; }
static J run(const J&h){ Schema root; J out=J::arr(); for(size_t i=0;i<h.size();i++){ std::string r; try { r=call(root,h.at(i)); } catch(conduit::Error&){ r="err"; } J x=J::obj(); x.set("r",r).set("t",see(root)); out.push(x); } return out; }
static J gen(Rng&g,const std::string&){
  // calls are chosen along with a schema that performs them, to aim at what exists
  G x{g}; Schema root; J h=J::arr(); int len=g.range(3,14);
  for(int k=0;k<len;k++){
    J c=J::obj(),at=J::arr(); Schema*s=&root; while(s->number_of_children()&&g.chance(55)){ int i=g.below((int)s->number_of_children()); at.push(J(i+1)); s=&s->child(i); }
    static const std::vector<std::string> O={"fetch","fetch","fetch","existing","existing","add","append","rmi","rmp","rmc","rename","rename","set","set","reset","has_child","has_path","child_index","child_name","child","name","compatible","equals"}; std::string o=k==0&&g.chance(70)?std::string("set"):g.pick(O); if(o=="reset"&&g.chance(60)) o="name";
    auto nm=[&]{ std::string n; if(s->child_names().size()&&g.chance(65)) n=s->child_names()[(size_t)g.below((int)s->child_names().size())]; else n=g.pick(x.N); return n; };
    std::string str=nm(),s2=nm(); if((o=="add"||o=="rename")&&g.chance(10)){ if(o=="add") str="p/q"; else s2="p/q"; }
    // a path: names that mostly exist, sometimes up and down again
    J p=J::arr(); std::string ps; Schema*w=s; size_t dep=at.size(); int pl=g.range(1,3); bool up= o=="fetch"||o=="existing"; for(int i=0;i<pl;i++){ std::string n; if(up&&dep>0&&i+1<pl&&g.chance(20)){ n=".."; dep--; w=w?w->parent():0; } else { if(w&&w->child_names().size()&&g.chance(75)){ n=w->child_names()[(size_t)g.below((int)w->child_names().size())]; if(n.find('/')!=std::string::npos) n="a"; w=w->has_child(n)?&w->child(n):0; } else { n=g.pick(x.N); w=(w&&w->has_child(n))?&w->child(n):0; } dep++; } p.push(J(n)); ps+=(i?"/":"")+n; if(i+1==pl&&g.chance(6)) ps+="/"; }
    J l=lit("none"); if(o=="set"||o=="compatible"||o=="equals"||(o=="fetch"&&g.chance(60))) l=x.tree(g.range(0,2)); if((o=="compatible"||o=="equals")&&g.chance(50)){ l=see(*s); if(g.chance(40)&&l["ch"].size()&&l["k"].s=="o"){ J ch=l["ch"],nn=l["nm"]; std::swap(ch.a[0],ch.a.back()); std::swap(nn.a[0],nn.a.back()); l.set("ch",ch).set("nm",nn); } }
    c.set("c",o).set("at",at).set("s",str).set("s2",s2).set("p",p).set("ps",ps).set("i",g.range(1,4)).set("v",g.below(16)).set("lit",l); h.push(c); try { call(root,c); } catch(conduit::Error&){}
  }
  J op=J::obj(); op.set("op","hist").set("h",h); return op; }
static J exec(const J&op){ J o=J::obj(); o.set("h",run(op["h"])); return o; }
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
