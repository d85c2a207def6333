// Driver for spec/Rel.tla: mcarray, mlarray, table, o2mrelation, NDIndex.
#include "vh_fun.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_o2mrelation_examples.hpp"
using namespace vh; using namespace conduit;
namespace bp=conduit::blueprint; namespace o2=conduit::blueprint::o2mrelation;
static J ints(const Node&n){ J a=J::arr(); float64_accessor x=n.as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++) a.push(J((long long)x[i])); return a; }
static J place(const Node&n,bool str){ J a=J::arr(); for(idx_t i=0;i<n.number_of_children();i++){ const Node&c=n.child(i); if(str) a.push(J((long long)c.dtype().stride())); else a.push(J((long long)((const char*)c.element_ptr(0)-(const char*)n.child(0).element_ptr(0)))); } return a; }
static J strip(const J&t){ J r=J::obj(); J ch=J::arr(); for(size_t i=0;i<t["ch"].size();i++) ch.push(strip(t["ch"].at(i))); r.set("k",t["k"]).set("nm",t["nm"]).set("ch",ch).set("t",t["t"]).set("v",t["v"]); return r; }
static J grid_o(const Node&n,idx_t ones){ J g=J::arr(); o2::O2MIndex I(n); for(idx_t o=0;o<ones;o++){ J m=J::arr(); for(idx_t k=0;k<I.size(o);k++) m.push(J((long long)I.index(o,k))); g.push(m); } return g; }
static J exec(const J&op){
  const std::string o=op["op"].s; Arena A; J out=J::obj(); Node n,info; info["stale"]=1;
  if(o=="mc"){ build(n,op["full"],A); bool v=bp::mcarray::verify(n,info); out.set("ver",v); bool conv=v&&n.dtype().is_object()&&n.number_of_children()>0; out.set("conv",conv);
    if(conv){ Node c,i; if(op["pre"].b){ c["old"]=1.5; i.append()=2; } J before=vtree(n); bp::mcarray::to_contiguous(n,c); bp::mcarray::to_interleaved(n,i);
      out.set("cont",strip(vtree(c))).set("inter",strip(vtree(i))).set("src",before.str()==vtree(n).str());
      bool some=n.child(0).dtype().number_of_elements()>0;
      if(some) out.set("coff",place(c,false)).set("cstr",place(c,true)).set("ioff",place(i,false)).set("istr",place(i,true)).set("iisi",bp::mcarray::is_interleaved(i)).set("cisi",bp::mcarray::is_interleaved(c)).set("cisc",c.is_contiguous()); }
    return out; }
  if(o=="ml"){ build(n,op["full"],A); bool d=op["def"].b; out.set("ver",d?bp::mlarray::verify(n,info):bp::mlarray::verify(n,info,op["lo"].i,op["hi"].i,op["uni"].b)); return out; }
  if(o=="table"){ build(n,op["full"],A); try { out.set("ver",bp::table::verify(n,info)).set("raised",false); } catch(conduit::Error&){ out.set("ver",false).set("raised",true); } return out; }
  if(o=="nd"){ Node q; std::vector<int64> sh,of,st; for(size_t i=0;i<op["shape"].size();i++) sh.push_back(op["shape"].at(i).i); for(size_t i=0;i<op["offset"].size();i++) of.push_back(op["offset"].at(i).i); for(size_t i=0;i<op["stride"].size();i++) st.push_back(op["stride"].at(i).i);
    bp::ndarray::NDIndex I; const std::string via=op["via"].s;
    auto put=[&](const char*nm,const std::vector<int64>&v){ Node t; t.set(v); if(via=="i32") t.to_int32_array(q[nm]); else if(via=="f64") t.to_float64_array(q[nm]); else if(via=="u8") t.to_uint8_array(q[nm]); else q[nm].set(v); };
    std::vector<index_t> a(sh.begin(),sh.end()),b(of.begin(),of.end()),c(st.begin(),st.end());
    if(via=="ptr") I=bp::ndarray::NDIndex((index_t)a.size(),a.data(),b.empty()?NULL:b.data(),c.empty()?NULL:c.data());
    else { put("shape",sh); if(!of.empty()) put("offset",of); if(!st.empty()) put("stride",st); bp::ndarray::NDIndex K(q); bp::ndarray::NDIndex L(K); I=L; }
    std::vector<index_t> at; for(size_t i=0;i<op["at"].size();i++) at.push_back(op["at"].at(i).i);
    idx_t r=at.size()==1?I.index(at[0]):at.size()==2?I.index(at[0],at[1]):at.size()==3?I.index(at[0],at[1],at[2]):I.index(at[0],at[1],at[2],at[3]);
    J s=J::arr(),f=J::arr(),t=J::arr(); for(idx_t d=0;d<I.ndims();d++){ s.push(J((long long)I.shape(d))); f.push(J((long long)I.offset(d))); t.push(J((long long)I.stride(d))); }
    Node inf; I.info(inf); out.set("ndims",(long long)I.ndims()).set("shape",s).set("offset",f).set("stride",t).set("index",(long long)r).set("info",ints(inf["shape"]).str()==s.str()&&ints(inf["offset"]).str()==f.str()&&ints(inf["stride"]).str()==t.str()); return out; }
  if(o=="uniform"){ try { o2::examples::uniform(n,op["nones"].i,op["nmany"].i,op["noff"].i,op["ind"].s); } catch(conduit::Error&){ out.set("err",true); return out; }
    out.set("err",false).set("ver",bp::o2mrelation::verify(n,info)).set("grid",grid_o(n,op["nones"].i)).set("meta",n.has_child("sizes")&&n.has_child("offsets")).set("hasind",n.has_child("indices")).set("vals",ints(n["data"])); return out; }
  // o2m
  for(size_t i=0;i<op["c"].size();i++){ const J&c=op["c"].at(i); if(c["t"].s=="o") n[c["n"].s]["x"]=1; else if(c["t"].s=="s") n[c["n"].s]="text"; else build(n[c["n"].s],c["full"],A); }
  bool v=o2::verify(n,info); out.set("ver",v); out.set("run",v&&op["run"].b); J before=vtree(n);
  if(v&&op["run"].b){
    J p=J::arr(); for(auto&s:o2::data_paths(n)) p.push(J(s)); out.set("paths",p);
    // iterators that walked another relation before they were assigned this one
    Node other; { std::vector<int32> od(9),os={2,1,4},oo={0,2,3},oi={8,7,6,5,4,3,2}; for(int i=0;i<9;i++) od[(size_t)i]=i; other["data"].set(od); other["sizes"].set(os); other["offsets"].set(oo); other["indices"].set(oi); }
    auto fresh=[&](o2::O2MIterator&w){ w.next(o2::DATA); w.next(o2::DATA); w=o2::O2MIterator(n); };
    o2::O2MIterator it(n); out.set("ones",(long long)it.elements(o2::ONE)).set("total",(long long)it.elements(o2::DATA)); idx_t ones=it.elements(o2::ONE); idx_t lim=200;
    J data=J::arr(),peek=J::arr(),rev=J::arr(),nest=J::arr(),at=J::arr(),many=J::arr(),to=J::arr();
    while(it.has_next(o2::DATA)&&lim-->0){ peek.push(J((long long)it.peek_next(o2::DATA))); data.push(J((long long)it.next(o2::DATA))); if(it.index(o2::DATA)!=data.a.back().i) data.push(J(-9)); }
    o2::O2MIterator rt(other); fresh(rt); rt.to_back(o2::DATA); lim=200; while(rt.has_previous(o2::DATA)&&lim-->0){ idx_t pk=rt.peek_previous(o2::DATA),x=rt.previous(o2::DATA); rev.push(J((long long)x)); if(pk!=x) rev.push(J(-9)); }
    // the nested walk the library itself uses; it ends after the last one that has any data
    { std::vector<J> rows((size_t)ones,J::arr()); o2::O2MIterator w0(other); fresh(w0); o2::O2MIterator w(w0); lim=400; while(w.has_next(o2::DATA)&&lim-->0){ idx_t one=w.next(o2::ONE); w.to_front(o2::MANY); J row=J::arr(); while(w.has_next(o2::MANY)&&lim-->0){ w.next(o2::MANY); row.push(J((long long)w.index(o2::DATA))); } if(one>=0&&one<ones) rows[(size_t)one]=row; else lim=0; } if(lim<=0) nest.push(J(-9)); for(auto&r:rows) nest.push(r); }
    for(idx_t k=0;k<ones;k++){ o2::O2MIterator w(other); fresh(w); w.to(k,o2::ONE); w.to_front(o2::MANY); J row=J::arr(); many.push(J((long long)w.elements(o2::MANY))); while(w.has_next(o2::MANY)){ w.next(o2::MANY); row.push(J((long long)w.index(o2::DATA))); } at.push(row); }
    for(size_t k=0;k<data.size();k++){ o2::O2MIterator w0(n); w0.to((idx_t)k); o2::O2MIterator w1(w0),w(other); w.next(o2::DATA); w=w1; to.push(J((long long)w.index())); }
    out.set("data",data).set("peek",peek).set("rev",rev).set("nest",nest).set("at",at).set("many",many).set("to",to);
    o2::O2MIndex I(n); out.set("idx",grid_o(n,ones)).set("isize",(long long)I.size()); J io=J::arr(); for(idx_t k=0;k<ones;k++) io.push(J((long long)I.offset(k))); out.set("ioff",io);
    Node c; if(op["pre"].b) c["old/x"]=3; o2::compact_to(n,c); J cj=J::obj(),cn=J::arr(),ct=J::arr(),cd=J::arr(); Node ci; bool ok=o2::verify(c,ci);
    for(auto&s:o2::data_paths(c)){ cn.push(J(s)); ct.push(J(tname(c[s].dtype().id()))); cd.push(ints(c[s])); }
    cj.set("ok",ok).set("names",cn).set("types",ct).set("data",cd).set("sizes",c.has_child("sizes")?ints(c["sizes"]):J::arr()).set("offsets",c.has_child("offsets")?ints(c["offsets"]):J::arr()); out.set("compact",cj);
  }
  out.set("src",before.str()==vtree(n).str());
  { Node i2; bool hs=n.has_child("sizes")&&n["sizes"].dtype().is_integer(); J g=J::obj(); if(hs||!n.has_child("sizes")){ bool ok=o2::generate_offsets(n,i2); g.set("ok",ok).set("offsets",ok?ints(n["offsets"]):J::arr()); } else g.set("ok",false).set("offsets",J::arr()); out.set("gen",g); }
  return out;
}
static J numleaf(Rng&g,const std::string&t,const std::vector<long long>&v){ int w=width_of(t); J h=J::arr(); for(long long x:v) h.push(J(is_float(t)?f_hex(t,x*16):le(x,w))); J j=leaf_j(t,h,0,w,"own"); layout_j(g,j,true); return j; }
static J gen(Rng&g,const std::string&prof){
  J op=J::obj(); int q=g.below(100);
  if(q<22){ TreeOpts T; T.types=num_types(); T.names={"x","y","z","u/v"}; T.wide=true; J t; 
    if(g.chance(85)){ bool obj=g.chance(80); t=kind_j(obj?"o":"l"); int c=g.range(0,4),n=g.range(0,4); J nm=J::arr(),ch=J::arr(); std::string same=g.pick(T.types); bool mono=g.chance(40); for(int i=0;i<c;i++){ TreeOpts U=T; if(mono) U.types={same}; int m=g.chance(8)?g.range(0,4):n; J l; do l=rand_leaf(g,U); while((int)l["v"].size()!=m&&(U.maxn=4)); if(g.chance(3)) l=rand_tree(g,T,1); nm.push(J(T.names[(size_t)i])); ch.push(l); } if(obj) t.set("nm",nm); t.set("ch",ch); }
    else t=rand_tree(g,T,2);
    op.set("op","mc").set("full",t).set("tree",strip(t)).set("pre",g.chance(20)); return op; }
  if(q<34){ TreeOpts T; T.types={"int32","float64","uint8"}; T.names={"x","y"}; T.lists=false; T.maxn=2; T.zero=false; T.width=2; J t;
    if(g.chance(70)){ int d=g.range(0,3),n=g.range(1,2); std::function<J(int)> mk=[&](int k)->J{ if(k==0){ if(g.chance(4)) return rand_tree(g,T,1); std::vector<long long> v((size_t)(g.chance(6)?3:n),1); return numleaf(g,g.pick(T.types),v); } J j=kind_j("o"); J nm=J::arr(),ch=J::arr(); bool sw=g.chance(30); nm.push(J(sw?"y":"x")); ch.push(mk(k-1)); if(!g.chance(5)){ nm.push(J(sw?"x":"y")); ch.push(mk(k-1)); } j.set("nm",nm).set("ch",ch); return j; }; t=mk(d); }
    else t=rand_tree(g,T,3);
    bool def=g.chance(40); op.set("op","ml").set("full",t).set("tree",strip(t)).set("def",def).set("lo",def?0:g.range(0,2)).set("hi",def?1000:g.range(1,4)).set("uni",def?true:g.chance(50)); return op; }
  if(q<44){ TreeOpts T; T.types={"int32","float64","char8_str"}; T.names={"a","b","values"}; T.maxn=3; T.layout=true; J t;
    if(g.chance(80)){ auto tab=[&]()->J{ int n=g.range(0,3); bool obj=g.chance(60); J v=kind_j(obj?"o":"l"); J nm=J::arr(),ch=J::arr(); int c=g.range(0,3); for(int i=0;i<c;i++){ int m=g.chance(5)?g.range(0,3):n; std::vector<long long> z((size_t)m,2); J col; if(g.chance(35)){ bool bo=g.chance(50); col=kind_j(bo?"o":"l"); J a=J::arr(),b=J::arr(); int cc=g.chance(8)?0:g.range(1,2); for(int k=0;k<cc;k++){ a.push(J(k?"q":"p")); b.push(numleaf(g,"float64",std::vector<long long>((size_t)(g.chance(4)?1:m),1))); } if(bo) col.set("nm",a); col.set("ch",b); } else if(g.chance(5)) col=rand_tree(g,T,1); else col=numleaf(g,"int32",z); nm.push(J(std::string(1,(char)('a'+i)))); ch.push(col); } if(obj) v.set("nm",nm); v.set("ch",ch); J t=kind_j("o"); J n1=J::arr(),c1=J::arr(); n1.push(J(g.chance(5)?"vals":"values")); c1.push(v); t.set("nm",n1).set("ch",c1); return t; };
      if(g.chance(60)) t=tab(); else { bool obj=g.chance(50); t=kind_j(obj?"o":"l"); J nm=J::arr(),ch=J::arr(); int c=g.range(0,3); for(int i=0;i<c;i++){ nm.push(J(std::string(1,(char)('s'+i)))); ch.push(g.chance(6)?rand_tree(g,T,1):tab()); } if(obj) t.set("nm",nm); t.set("ch",ch); } }
    else t=rand_tree(g,T,2);
    op.set("op","table").set("full",t).set("tree",strip(t)); return op; }
  if(q<54){ int d=g.range(1,4); J sh=J::arr(),of=J::arr(),st=J::arr(),at=J::arr(); bool ho=g.chance(50),hs=g.chance(40); for(int i=0;i<d;i++){ int s=g.range(1,5); sh.push(J(s)); if(ho) of.push(J(g.below(3))); if(hs) st.push(J(g.range(0,30))); at.push(J(g.below(s))); } static const std::vector<std::string> V={"i64","i32","f64","u8","ptr"}; op.set("op","nd").set("shape",sh).set("offset",of).set("stride",st).set("at",at).set("via",g.pick(V)); return op; }
  if(q<60){ static const std::vector<std::string> V={"unspecified","default","reversed"}; op.set("op","uniform").set("nones",g.range(0,4)).set("nmany",g.below(4)).set("noff",g.below(5)).set("ind",g.pick(V)); return op; }
  // a relation: pick the layout of the data first, then relations into it
  static const std::vector<std::string> IT={"int8","int16","int32","int64","uint8","uint16","uint32","uint64"};
  int nd=g.range(1,8); bool hs=g.chance(70),hi=g.chance(50),bad=g.chance(15); int ones=g.range(hs||hi?1:1,4); std::vector<long long> sz,of,in; int ni=hi?g.range(1,8):nd;
  if(!hs&&!hi) ones=nd; if(!hs&&hi) ones=ni;
  if(hi) for(int i=0;i<ni;i++) in.push_back(g.below(nd));
  if(hs) for(int i=0;i<ones;i++){ int s=g.chance(20)?0:g.range(1,std::min(3,ni)); sz.push_back(s); of.push_back(g.below(ni-s+1)); }
  std::vector<std::pair<std::string,J> > cs; auto leaf=[&](const std::string&n,const std::string&t,const std::vector<long long>&v){ J c=J::obj(); J iv=J::arr(); for(long long x:v) iv.push(J(x)); c.set("n",n).set("t",t).set("i",iv).set("full",numleaf(g,t,v)); cs.push_back({n,c}); };
  auto odd=[&](const std::string&n,const std::string&t){ J c=J::obj(); c.set("n",n).set("t",t).set("i",J::arr()).set("full",0); cs.push_back({n,c}); };
  bool run=true; int k=bad?g.below(6):-1; if(bad) run=false;
  int ndata=g.range(1,3); static const std::vector<std::string> DN={"values","data","extra"}; if(k==0) ndata=0;
  for(int i=0;i<ndata;i++){ std::vector<long long> v; for(int j=0;j<nd;j++) v.push_back(g.range(0,100)); leaf(DN[(size_t)i],g.pick(num_types()),v); }
  if(hs&&k!=1) leaf("sizes",k==3?"float64":g.pick(IT),sz); if(hs&&k!=2){ std::vector<long long> o3=of; if(k==4) o3.push_back(0); leaf("offsets",g.pick(IT),o3); } if(hi) leaf("indices",k==5?"float32":g.pick(IT),in);
  if(g.chance(20)) odd("name","s"); if(g.chance(15)) odd("sub","o");
  for(size_t i=cs.size();i>1;i--) std::swap(cs[i-1],cs[(size_t)g.below((int)i)]);
  J c=J::arr(); for(auto&p:cs) c.push(p.second); op.set("op","o2m").set("c",c).set("run",run).set("pre",g.chance(20)); return op;
}
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
