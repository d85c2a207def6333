// Building and reading material sets (Mat.tla).
#pragma once
#include "vh_mesh.hpp"
namespace vh {
static const double UNIT=32.0;
inline IV scaled(const conduit::Node&n){ IV v; if(!n.dtype().is_number()) return v; conduit::float64_accessor x=n.as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++) v.push_back(whole(x[i]*UNIT)); return v; }
// values k stand for k/32
inline void put_frac(conduit::Node&n,const std::string&t,const IV&v,Build&B){ int w=width_of(t); J h=J::arr(); for(long long x:v){ if(t=="float32"){ float y=(float)(x/UNIT); h.push(J(hex(&y,4))); } else { double y=x/UNIT; h.push(J(hex(&y,8))); } } J j=leaf_j(t,h,0,w,"own"); layout_j(B.g,j,B.vary); build(n,j,B.A); }
inline void build_matset(conduit::Node&m,const J&j,Build&B){ m.reset(); m["topology"]="topo"; const std::string f=j["form"].s;
  if(j["map"].size()) for(size_t k=0;k<j["map"].size();k++){ IV v={j["map"].at(k)["id"].i}; put_num(m["material_map"].add_child(j["map"].at(k)["n"].s),B.it,v,B.g,B.A,false); }
  if(f=="full"||f=="bymat"){ for(size_t k=0;k<j["mats"].size();k++){ const J&x=j["mats"].at(k); put_frac(m["volume_fractions"].add_child(x["n"].s),B.ft,ivec(x["vf"]),B); if(f=="bymat") put_num(m["element_ids"].add_child(x["n"].s),B.it,ivec(x["e"]),B.g,B.A,B.vary); } return; }
  put_frac(m["volume_fractions"],B.ft,ivec(j["vf"]),B); put_num(m["material_ids"],B.it,ivec(j["ids"]),B.g,B.A,B.vary);
  if(f=="unimat") put_num(m["element_ids"],B.it,ivec(j["e"]),B.g,B.A,B.vary);
  for(const char*k:{"sizes","offsets","indices"}) if(j[k].size()) put_num(m[k],B.it,ivec(j[k]),B.g,B.A,B.vary); }
inline J raw_map(const conduit::Node&m){ J a=J::arr(); if(m.has_child("material_map")) for(idx_t i=0;i<m["material_map"].number_of_children();i++){ const conduit::Node&c=m["material_map"].child(i); J x=J::obj(); x.set("n",c.name()).set("id",(long long)c.to_int64()); a.push(x); } return a; }
inline J raw_matset(const conduit::Node&m){ J j=J::obj(),mats=J::arr(); bool multi=m["volume_fractions"].dtype().is_object(),md=m.has_child("element_ids"); j.set("form",multi?(md?"bymat":"full"):(md?"unimat":"uni")).set("map",raw_map(m));
  if(multi) for(idx_t i=0;i<m["volume_fractions"].number_of_children();i++){ const conduit::Node&c=m["volume_fractions"].child(i); J x=J::obj(); x.set("n",c.name()).set("vf",jints(scaled(c))).set("e",jints(md?read_num(m["element_ids"][c.name()]):IV())); mats.push(x); }
  j.set("mats",mats).set("ids",jints(read_at(m,"material_ids"))).set("vf",jints(multi?IV():scaled(m["volume_fractions"]))).set("e",jints(multi||!md?IV():read_num(m["element_ids"]))).set("sizes",jints(read_at(m,"sizes"))).set("offsets",jints(read_at(m,"offsets"))).set("indices",jints(read_at(m,"indices"))); return j; }
// a random material set over ne elements; names and ids give the materials
inline J rand_matset(Rng&g,int ne,const std::vector<std::string>&names,const IV&ids,const std::string&form,bool mapped){
  int nm=(int)names.size(); bool uni=form=="uni"||form=="unimat"; auto sh=[&](std::vector<int>&v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[(size_t)g.below((int)i)]); };
  std::vector<IV> vf((size_t)nm,IV((size_t)ne,0)); for(int e=0;e<ne;e++){ int left=32; std::vector<int> ix; for(int k=0;k<nm;k++) ix.push_back(k); sh(ix); int use=g.range(1,nm); for(int k=0;k<use&&left>0;k++){ int x=k==use-1?left:g.pick(std::vector<int>{1,2,4,8,16}); if(x>left) x=left; vf[(size_t)ix[(size_t)k]][(size_t)e]=x; left-=x; } }
  J m=J::obj(),map=J::arr(),mats=J::arr(); IV iv,ii,ie,sz,of,ix; if(uni||mapped) for(int k=0;k<nm;k++){ J x=J::obj(); x.set("n",names[(size_t)k]).set("id",ids[(size_t)k]); map.push(x); }
  if(!uni) for(int k=0;k<nm;k++){ J x=J::obj(); IV a,e; for(int i=0;i<ne;i++) if(form=="full"||vf[(size_t)k][(size_t)i]>0){ a.push_back(vf[(size_t)k][(size_t)i]); e.push_back(i); } if(a.empty()&&!mapped&&g.chance(50)) continue; if(form=="bymat"&&a.size()>1&&g.chance(40)){ std::swap(a[0],a.back()); std::swap(e[0],e.back()); } x.set("n",names[(size_t)k]).set("vf",jints(a)).set("e",jints(form=="bymat"?e:IV())); mats.push(x); }
  else { bool useix=g.chance(40),gaps=g.chance(30); std::vector<int> eo; for(int e=0;e<ne;e++) eo.push_back(e); if(form=="unimat") sh(eo);
    for(int e:eo){ std::vector<int> v; for(int k=0;k<nm;k++) if(vf[(size_t)k][(size_t)e]>0) v.push_back(k); sh(v); if(gaps&&!useix&&g.chance(30)){ ii.push_back(ids[0]); iv.push_back(5); } of.push_back((long long)(useix?ix.size():iv.size())); sz.push_back((long long)v.size()); for(int k:v){ if(useix) ix.push_back((long long)iv.size()); ii.push_back(ids[(size_t)k]); iv.push_back(vf[(size_t)k][(size_t)e]); if(useix&&gaps&&g.chance(30)){ ii.push_back(ids[0]); iv.push_back(7); } } ie.push_back(e); }
    if(useix&&iv.size()>1){ std::vector<int> p; for(size_t i=0;i<iv.size();i++) p.push_back((int)i); sh(p); IV a(iv.size()),b(iv.size()); for(size_t i=0;i<iv.size();i++){ a[(size_t)p[i]]=iv[i]; b[(size_t)p[i]]=ii[i]; } iv=a; ii=b; for(auto&x:ix) x=p[(size_t)x]; }
    bool ones=true; for(auto x:sz) ones&=x==1; if(ones&&!gaps&&g.chance(50)){ sz.clear(); of.clear(); } }
  m.set("form",form).set("map",map).set("mats",mats).set("ids",jints(ii)).set("vf",jints(iv)).set("e",jints(form=="unimat"?ie:IV())).set("sizes",jints(sz)).set("offsets",jints(of)).set("indices",jints(ix)); return m; }
}
