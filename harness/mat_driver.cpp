// Driver for spec/Mat.tla: material sets, material dependent fields, species.
#include "vh_mat.hpp"
using namespace vh; using namespace conduit; namespace bm=conduit::blueprint::mesh;
static void build_field(Node&n,const J&f,bool multi,Build&B){ n["association"]="element"; n["topology"]="topo"; n["matset"]="mset"; if(f["vals"].size()) put_num(n["values"],B.ft,ivec(f["vals"]),B.g,B.A,B.vary); n["extra"]="keep";
  if(multi) for(size_t k=0;k<f["mats"].size();k++) put_num(n["matset_values"].add_child(f["mats"].at(k)["n"].s),B.ft,ivec(f["mats"].at(k)["v"]),B.g,B.A,B.vary); else put_num(n["matset_values"],B.ft,ivec(f["v"]),B.g,B.A,B.vary); }
static J raw_field(const Node&f,const Node&src){ J j=J::obj(),mats=J::arr(); bool multi=f["matset_values"].dtype().is_object(); if(multi) for(idx_t i=0;i<f["matset_values"].number_of_children();i++){ const Node&c=f["matset_values"].child(i); J x=J::obj(); x.set("n",c.name()).set("v",jints(read_num(c))); mats.push(x); }
  bool rest=true; for(idx_t i=0;i<src.number_of_children();i++){ std::string nm=src.child(i).name(); if(nm=="matset"||nm=="matset_values") continue; rest&=f.has_child(nm)&&vtree(f[nm]).str()==vtree(src[nm]).str(); }
  j.set("mats",mats).set("v",jints(multi?IV():read_num(f["matset_values"]))).set("name",str_at(f,"matset")=="new").set("rest",rest); return j; }
static void silo_out(J&out,const Node&d){ out.set("map",raw_map(d)).set("matlist",jints(read_num(d["matlist"]))).set("next",jints(read_num(d["mix_next"]))).set("mat",jints(read_num(d["mix_mat"]))).set("vf",jints(scaled(d["mix_vf"]))); }
static J exec(const J&op){
  const std::string o=op["op"].s; Arena A; Build B(op["how"],A); Node m,f,info; build_matset(m,op["m"],B); bool multi=op["m"]["mats"].size()>0; bool fld=op["fld"].b; if(fld) build_field(f,op["f"],multi,B);
  std::string before=vtree(m).str()+vtree(f).str(); double eps=(op["eps"].i+0.5)/UNIT; bool def=op["eps"].i==0; J out=J::obj(); Node d,df; if(op["pre"].b){ d["junk/x"]=1; df["matset_values/zz"]=3.5; } const Node&cm=m; const Node&cf=f;
  auto src=[&](){ return vtree(m).str()+vtree(f).str()==before; };
  try {
    if(o=="class"){ out.set("ver",bm::matset::verify(m,info)).set("multi",bm::matset::is_multi_buffer(m)).set("uni",bm::matset::is_uni_buffer(m)).set("matdom",bm::matset::is_material_dominant(m)).set("eldom",bm::matset::is_element_dominant(m)); return out; }
    if(o=="conv"){ const std::string to=op["to"].s;
      if(to=="full") bm::matset::to_multi_buffer_full(cm,d); else if(to=="byelem"){ if(def) bm::matset::to_sparse_by_element(cm,d); else bm::matset::to_sparse_by_element(cm,d,eps); } else { if(def) bm::matset::to_multi_buffer_by_material(cm,d); else bm::matset::to_multi_buffer_by_material(cm,d,eps); }
      if(fld){ if(to=="full") bm::field::to_multi_buffer_full(cm,cf,"new",df); else if(to=="byelem"){ if(def) bm::field::to_sparse_by_element(cm,cf,"new",df); else bm::field::to_sparse_by_element(cm,cf,"new",df,eps); } else { if(def) bm::field::to_multi_buffer_by_material(cm,cf,"new",df); else bm::field::to_multi_buffer_by_material(cm,cf,"new",df,eps); } }
      out.set("ok",true).set("err","").set("m",raw_matset(d)).set("f",fld?raw_field(df,f):J::obj()).set("ver",bm::matset::verify(d,info)).set("top",str_at(d,"topology")=="topo").set("src",src()); return out; }
    if(o=="silo"){ if(fld){ if(def) bm::field::to_silo(cf,cm,d); else bm::field::to_silo(cf,cm,d,eps); } else { if(def) bm::matset::to_silo(cm,d); else bm::matset::to_silo(cm,d,eps); }
      silo_out(out,d); out.set("ok",true).set("err","").set("src",src()).set("top",str_at(d,"topology")=="topo").set("fv",jints(read_at(d,"field_mixvar_values"))).set("rest",!f.has_child("values")||vtree(f["values"]).str()==vtree(d["field_values"]).str()); return out; }
    Node s,sm; const J&sp=op["sp"]; s["matset"]="mset"; for(size_t k=0;k<sp.size();k++){ Node&c=s["matset_values"].add_child(sp.at(k)["n"].s); for(size_t q=0;q<sp.at(k)["s"].size();q++) put_num(c.add_child(sp.at(k)["s"].at(q)["n"].s),B.ft,ivec(sp.at(k)["s"].at(q)["mf"]),B.g,A,B.vary); }
    std::string sb=vtree(s).str(); bm::matset::to_silo(cm,sm); if(op["to"].s=="silo") bm::specset::to_silo(s,sm,d); else bm::specset::to_silo(s,cm,d);
    silo_out(out,sm); J nm=J::arr(); for(idx_t i=0;i<d["specnames"].number_of_children();i++) nm.push(J(d["specnames"].child(i).as_string()));
    out.set("ok",true).set("err","").set("src",src()&&vtree(s).str()==sb).set("nmat",(long long)d["nmat"].to_int64()).set("nmatspec",jints(read_num(d["nmatspec"]))).set("names",nm).set("nmf",(long long)d["nspecies_mf"].to_int64()).set("mf",jints(read_num(d["species_mf"]))).set("mixlen",(long long)d["mixlen"].to_int64()).set("mix",jints(read_num(d["mix_spec"]))).set("list",jints(read_num(d["speclist"]))); return out;
  } catch(conduit::Error&e){ J x=J::obj(); x.set("ok",false).set("err",e.message()); return x; }
}
template<class T> static void shuffle(Rng&g,std::vector<T>&v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[(size_t)g.below((int)i)]); }
static J gen(Rng&g,const std::string&){
  J op=J::obj(); J how=rand_how(g); if(g.chance(10)) how.set("it",g.chance(50)?"int8":"uint8"); op.set("how",how).set("pre",g.chance(20)).set("to","").set("eps",0).set("fld",false).set("f",J::obj()).set("sp",J::arr());
  int q=g.below(100); std::string o=q<8?"class":q<60?"conv":q<85?"silo":"spec"; op.set("op",o);
  bool many=g.chance(1)&&g.chance(30); int ne=many?g.range(50,80):g.range(1,5),nm=many?4:g.range(1,4); std::vector<std::string> names={"steel","air","m1","Zinc","b"}; shuffle(g,names); names.resize((size_t)nm);
  std::vector<IV> vf((size_t)nm,IV((size_t)ne,0)); for(int e=0;e<ne;e++){ int left=32; std::vector<int> idx; for(int k=0;k<nm;k++) idx.push_back(k); shuffle(g,idx); int use=many?g.range(3,4):g.range(1,nm); for(int k=0;k<use&&left>0;k++){ int x=k==use-1?left:g.pick(std::vector<int>{1,2,4,8,16,left/2}); if(x>left) x=left; vf[(size_t)idx[(size_t)k]][(size_t)e]=x; left-=x; } }
  std::vector<std::string> forms={"full","bymat","uni"}; if(o!="conv") forms.push_back("unimat"); if(many) forms={"full","bymat"}; std::string form=g.pick(forms);
  J m=J::obj(); m.set("form",form); J map=J::arr(); IV ids; { std::vector<int> p={0,1,2,3,7,12}; shuffle(g,p); for(int k=0;k<nm;k++) ids.push_back(p[(size_t)k]); } if(g.chance(40)) for(int k=0;k<nm;k++) ids[(size_t)k]=k;
  bool uni=form=="uni"||form=="unimat"; std::vector<int> ord; for(int k=0;k<nm;k++) ord.push_back(k); if(uni&&g.chance(40)) shuffle(g,ord);
  if(uni||g.chance(40)) for(int k:ord){ J x=J::obj(); x.set("n",names[(size_t)k]).set("id",ids[(size_t)k]); map.push(x); }
  J mats=J::arr(),fm=J::arr(); IV iv,ii,ie,sz,of,ix,fv; int eps=0; bool fld=(o=="conv"||o=="silo")&&g.chance(60); auto val=[&](){ return (long long)g.range(-50,50); };
  if(!uni) for(int k=0;k<nm;k++){ J x=J::obj(),y=J::obj(); IV a,e,w; for(int i=0;i<ne;i++){ if(form=="full"||vf[(size_t)k][(size_t)i]>0||(g.chance(10))){ a.push_back(vf[(size_t)k][(size_t)i]); e.push_back(i); w.push_back(val()); } } if(form=="bymat"&&g.chance(30)&&a.size()>1){ std::swap(a[0],a.back()); std::swap(e[0],e.back()); } x.set("n",names[(size_t)k]).set("vf",jints(a)).set("e",jints(form=="bymat"?e:IV())); y.set("n",names[(size_t)k]).set("v",jints(w)); mats.push(x); fm.push(y); }
  else { bool useix=g.chance(40),gaps=g.chance(30); std::vector<std::vector<std::pair<int,long long>>> gr; std::vector<int> eo; for(int e=0;e<ne;e++) eo.push_back(e); if(form=="unimat") shuffle(g,eo);
    for(int e:eo){ std::vector<std::pair<int,long long>> v; for(int k=0;k<nm;k++) if(vf[(size_t)k][(size_t)e]>0||g.chance(8)) v.push_back({k,vf[(size_t)k][(size_t)e]}); shuffle(g,v); gr.push_back(v); }
    IV slots; for(auto&v:gr){ if(gaps&&!useix&&g.chance(30)){ ii.push_back(ids[0]); iv.push_back(5); } of.push_back((long long)(useix?ix.size():iv.size())); sz.push_back((long long)v.size()); for(auto&x:v){ if(useix){ ix.push_back((long long)iv.size()); } ii.push_back(ids[(size_t)x.first]); iv.push_back(x.second); if(useix&&gaps&&g.chance(30)){ ii.push_back(ids[0]); iv.push_back(7); } } ie.push_back(eo[gr.size()==0?0:(size_t)(&v-&gr[0])]); }
    if(useix&&iv.size()>1){ std::vector<size_t> p; for(size_t i=0;i<iv.size();i++) p.push_back(i); shuffle(g,p); IV a(iv.size()),b(iv.size()); for(size_t i=0;i<iv.size();i++){ a[p[i]]=iv[i]; b[p[i]]=ii[i]; } iv=a; ii=b; for(auto&x:ix) x=(long long)p[(size_t)x]; }
    for(size_t i=0;i<iv.size();i++) fv.push_back(val()); }
  m.set("map",map).set("mats",mats).set("ids",jints(ii)).set("vf",jints(iv)).set("e",jints(form=="unimat"?ie:IV())).set("sizes",jints(sz)).set("offsets",jints(of)).set("indices",jints(ix)); op.set("m",m);
  if(o=="conv"){ op.set("to",g.pick(std::vector<std::string>{"full","byelem","bymat"})); }
  if((o=="conv"||o=="silo")&&g.chance(25)) eps=g.range(1,3); 
  if(eps){ bool every=true; for(int e=0;e<ne;e++){ bool any=false; for(int k=0;k<nm;k++) any|=vf[(size_t)k][(size_t)e]>eps; every&=any; } if(!every) eps=0; } op.set("eps",eps);
  if(fld){ J f=J::obj(); IV w; if(g.chance(50)) for(int i=0;i<ne;i++) w.push_back(val()); f.set("mats",fm).set("v",jints(fv)).set("vals",jints(w)); op.set("fld",true).set("f",f); }
  if(o=="spec"){ J sp=J::arr(); std::vector<std::string> order; if(map.size()) for(size_t k=0;k<map.size();k++) order.push_back(map.at(k)["n"].s); else order=names; int sn=0; for(auto&n:order){ J x=J::obj(),s=J::arr(); int c=g.range(0,3); for(int k=0;k<c;k++){ J y=J::obj(); IV mf; for(int i=0;i<ne;i++) mf.push_back(g.range(0,99)); y.set("n","s"+std::to_string(sn++)).set("mf",jints(mf)); s.push(y); } x.set("n",n).set("s",s); sp.push(x); } op.set("sp",sp).set("to",g.chance(50)?"silo":"blueprint"); }
  return op;
}
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
