// Driver for spec/Diff.tla
#include "vh_fun.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit.h"
using namespace vh; using namespace conduit;
static J info_j(const Node&i,const J&a,bool top=true){
  // the part of a diff report the specification talks about
  J j=J::obj(); j.set("valid",i.has_child("valid")?i["valid"].as_string():std::string("?"));
  J ex=J::arr(),mi=J::arr(),nm=J::arr(),df=J::arr(),va=J::arr();
  if(i.has_child("children")){ const Node&c=i["children"];
    auto names=[](const Node&l,J&o){ for(idx_t q=0;q<l.number_of_children();q++){ const Node&e=l.child(q); o.push(e.dtype().is_string()?J(e.as_string()):J(std::to_string(e.to_int64()))); } };
    if(c.has_child("extra")) names(c["extra"],ex); if(c.has_child("missing")) names(c["missing"],mi);
    if(c.has_child("diff")){ const Node&d=c["diff"]; for(idx_t q=0;q<d.number_of_children();q++){ if(d.dtype().is_object()) nm.push(J(d.child_names()[(size_t)q])); df.push(info_j(d.child(q),a,false)); } }
  }
  if(i.has_child("value")){ const Node&v=i["value"]; if(v.dtype().is_floating_point()){ float64_accessor x=v.as_float64_accessor(); for(idx_t q=0;q<x.number_of_elements();q++) va.push(J((long long)llround(x[q]*16))); } }
  j.set("extra",ex).set("missing",mi).set("nm",nm).set("diff",df).set("value",va); return j;
}
static J exec(const J&op){
  Arena A; Node a,b; build(a,op["a"],A); build(b,op["b"],A); double eps=(double)op["eps"].i/32; bool relax=op["relax"].b; J o=J::obj();
  Node i1,i2; i1["stale/entry"]=1; // reports start fresh
  bool viac=op.has("c"); bool r1=viac?conduit_node_diff(c_node(&a),c_node(&b),c_node(&i1),eps)!=0:a.diff(b,i1,eps,relax), r2=viac?conduit_node_diff_compatible(c_node(&a),c_node(&b),c_node(&i2),eps)!=0:a.diff_compatible(b,i2,eps,relax);
  o.set("diff",r1).set("diffc",r2).set("info",info_j(i1,op["a"])).set("infoc",info_j(i2,op["a"]));
  o.set("compat",viac?conduit_node_compatible(c_node(&a),c_node(&b))!=0:a.compatible(b)); o.set("scompat",a.schema().compatible(b.schema())); o.set("equals",a.schema().equals(b.schema()));
  return o;
}
static J gen(Rng&g,const std::string&prof){
  TreeOpts T; T.types=num_types(); T.types.push_back("char8_str"); T.types.push_back("char8_str"); T.types.push_back("float64"); T.names={"a","b","c","p/q"};
  if(g.chance(50)){ std::vector<std::string> few; for(int i=0;i<2;i++) few.push_back(g.pick(T.types)); T.types=few; }
  bool relax=g.chance(15); if(relax) T.maxn=1,T.zero=false;
  J a=rand_tree(g,T,g.range(0,3)); J b=a; int q=g.below(10);
  if(q==0) b=rand_tree(g,T,2); else { int m=g.below(3); for(int i=0;i<m;i++) b=mutate(g,T,b,2); if(g.chance(20)) std::swap(a,b); }
  if(relax){ // scalars only: arrays of different integer types are outside the claim
    std::function<bool(const J&)> ok=[&](const J&t){ if(t["k"].s=="d") return t["v"].size()==1||t["t"].s=="char8_str"; for(size_t i=0;i<t["ch"].size();i++) if(!ok(t["ch"].at(i))) return false; return true; }; if(!ok(a)||!ok(b)) relax=false; }
  // other layouts of the same values
  std::function<void(J&)> relay=[&](J&t){ if(t["k"].s=="d"){ if(g.chance(40)) layout_j(g,t,true); } else { J ch=t["ch"]; for(size_t i=0;i<ch.size();i++) relay(ch.a[i]); t.set("ch",ch);} }; relay(b);
  J op=J::obj(); op.set("op","diff").set("a",a).set("b",b).set("eps",g.chance(40)?0:g.range(1,5)).set("relax",relax); if(!relax&&g.chance(25)) op.set("c",true); return op;
}
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
