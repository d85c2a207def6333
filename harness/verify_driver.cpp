// Driver for spec/Verify.tla: the mesh blueprint verify functions on arbitrary
// trees, mesh indices and domain access.
#include "vh_fun.hpp"
#include "conduit_blueprint.hpp"
using namespace vh; using namespace conduit; namespace bp=conduit::blueprint; namespace bm=conduit::blueprint::mesh;
typedef std::string S_;
// -------------------------------------------------- trees whose values are text
static S_ text(const S_&t,const S_&h){ unsigned char b[8]={0}; unhex(h,(char*)b); char o[40];
  if(t=="float32"){ float f; memcpy(&f,b,4); snprintf(o,40,"%g",(double)f); return o; } if(t=="float64"){ double f; memcpy(&f,b,8); snprintf(o,40,"%g",f); return o; }
  int w=width_of(t); unsigned long long u=0; for(int i=w;i-->0;) u=u*256+b[i]; if(t[0]=='u'){ snprintf(o,40,"%llu",u); return o; } long long s=w==8?(long long)u:(long long)(u<<(64-8*w))>>(64-8*w); snprintf(o,40,"%lld",s); return o; }
static J norm(const J&j){ J r=J::obj(),ch=J::arr(),v=J::arr(); for(size_t i=0;i<j["ch"].size();i++) ch.push(norm(j["ch"].at(i))); long long n=(long long)j["v"].size();
  if(j["t"].s=="char8_str"){ S_ s; for(size_t i=0;i<j["v"].size();i++){ char c=0; unhex(j["v"].at(i).s,&c); if(!c) break; s+=c; } v.push(J(s)); } else for(size_t i=0;i<j["v"].size();i++) v.push(J(text(j["t"].s,j["v"].at(i).s)));
  r.set("k",j["k"]).set("nm",j["nm"]).set("ch",ch).set("t",j["t"]).set("n",n).set("v",v); return r; }
// -------------------------------------------------- outcome
static J out_of(const S_&p,const Node&n,Node&info){ J o=J::obj(); bool v=false,raised=false;
  try {
    if(p=="mesh") v=bm::verify(n,info);
    else if(p=="coordset/type") v=bm::coordset::type::verify(n,info); else if(p=="topology/type") v=bm::topology::type::verify(n,info); else if(p=="topology/shape") v=bm::topology::shape::verify(n,info);
    else if(p=="association") v=bm::association::verify(n,info); else if(p=="dims") v=bm::logical_dims::verify(n,info); else if(p=="coord_system") v=bm::coordset::coord_system::verify(n,info); else if(p=="nestset/type") v=bm::nestset::type::verify(n,info);
    else if(p=="mcarray"||p=="o2mrelation") v=bp::verify(p,n,info);
    else v=bm::verify(p,n,info);
  } catch(conduit::Error&){ raised=true; }
  o.set("raised",raised).set("ver",v).set("valid",info.has_child("valid")&&info["valid"].dtype().is_string()&&info["valid"].as_string()=="true"); return o; }
static J none(){ J j=J::obj(); j.set("asked",false); return j; }
static J exec(const J&op){ Arena A; Node n,info; build(n,op["full"],A); const S_ p=op["p"].s; if(op["stale"].b) info["valid"]="true",info["errors"].append()="old"; S_ before=vtree(n).str(); J o;
  if(op["via"].s=="bp"&&p!="mesh"&&p!="mcarray"&&p!="o2mrelation"){ bool v=false,raised=false; try { v=bp::verify("mesh/"+p,n,info); } catch(conduit::Error&){ raised=true; } o=J::obj(); o.set("raised",raised).set("ver",v).set("valid",info.has_child("valid")&&info["valid"].as_string()=="true"); }
  else if(op["via"].s=="bp"&&p=="mesh"){ bool v=false,raised=false; try { v=bp::verify("mesh",n,info); } catch(conduit::Error&){ raised=true; } o=J::obj(); o.set("raised",raised).set("ver",v).set("valid",info.has_child("valid")&&info["valid"].as_string()=="true"); }
  else o=out_of(p,n,info);
  J parts=J::arr(); static const char*SEC[]={"coordsets","topologies","matsets","specsets","fields","adjsets","nestsets"};
  if(p=="mesh"&&n.has_child("coordsets")&&!o["raised"].b) for(auto s:SEC) if(n.has_child(s)&&n[s].dtype().is_object()) for(auto&x:n[s].child_names()){ J q=J::obj(); q.set("sec",s).set("x",x); const Node&ci=info; bool ok=ci.has_child(s)&&ci[s].has_child(x)&&ci[s][x].has_child("valid")&&ci[s][x]["valid"].as_string()=="true"; q.set("ok",ok); parts.push(q); }
  o.set("parts",parts); J d=none();
  if(p=="mesh"&&o["ver"].b&&!o["raised"].b){ const Node&cn=n; d.set("asked",true).set("multi",bm::is_multi_domain(n)).set("n",(long long)bm::number_of_domains(n)); std::vector<const Node*> want; if(n.has_child("coordsets")) want.push_back(&n); else for(idx_t i=0;i<n.number_of_children();i++) want.push_back(&cn.child(i));
    std::vector<Node*> a=bm::domains(n),b(2,(Node*)0); bm::domains(n,b); std::vector<const Node*> c=bm::domains(cn),e(1,(const Node*)0); bm::domains(cn,e);
    d.set("list",std::vector<const Node*>(a.begin(),a.end())==want&&std::vector<const Node*>(b.begin(),b.end())==want).set("clist",c==want&&e==want);
    Node md; if(op["stale"].b) md["old"]=1; bm::to_multi_domain(cn,md); bool to=md.number_of_children()==(idx_t)want.size(),ext=true; std::function<void(const Node&,const Node&)> same=[&](const Node&x,const Node&y){ if(x.dtype().is_object()||x.dtype().is_list()){ for(idx_t i=0;i<x.number_of_children()&&i<y.number_of_children();i++) same(x.child(i),y.child(i)); } else if(!x.dtype().is_empty()&&x.data_ptr()!=y.data_ptr()) ext=false; };
    for(size_t i=0;to&&i<want.size();i++){ to&=vtree(md.child((idx_t)i)).str()==vtree(*want[i]).str(); same(md.child((idx_t)i),*want[i]); } d.set("to",to).set("ext",ext); }
  o.set("doms",d); J x=J::obj(); x.set("raised",true);
  if(op["idx"].b){ Node idx,ii; if(op["stale"].b) idx["stale/x"]=1; try { bm::generate_index(n,op["ref"].s,op["nd"].i,idx); bool v=bm::index::verify(idx,ii)&&bm::verify("index",idx,ii); 
      std::function<J(const Node&)> rd=[&](const Node&q)->J{ J r=J::obj(),nm=J::arr(),ch=J::arr(),v=J::arr(); S_ k=q.dtype().is_object()?"o":q.dtype().is_list()?"l":q.dtype().is_empty()?"e":"d"; if(k=="o") for(auto&s:q.child_names()) nm.push(J(s)); if(k!="d") for(idx_t i=0;i<q.number_of_children();i++) ch.push(rd(q.child(i))); S_ t=k=="d"?tname(q.dtype().id()):S_(""); if(t=="char8_str") v.push(J(q.as_string())); else if(k=="d") for(idx_t i=0;i<q.dtype().number_of_elements();i++) v.push(J(text(t,hex(q.element_ptr(i),(size_t)width_of(t))))); r.set("k",k).set("nm",nm).set("ch",ch).set("t",t).set("n",(long long)(k=="d"?q.dtype().number_of_elements():0)).set("v",v); return r; };
      x=J::obj(); x.set("raised",false).set("ver",v).set("t",rd(idx)); } catch(conduit::Error&){} }
  o.set("index",x).set("kept",vtree(n).str()==before); return o; }
// -------------------------------------------------- making trees
static const std::vector<S_> IT={"int32","int64","int32","int64","uint8","int16","uint64"};
struct G { Rng&g; explicit G(Rng&r):g(r){}
  J lay(J j){ layout_j(g,j,g.chance(20)); return j; }
  J str(const S_&s){ J v=J::arr(); for(char c:s) v.push(J(hex(&c,1))); v.push(J("00")); return leaf_j("char8_str",v,0,1,"own"); }
  J nums(const S_&t,const std::vector<long long>&x){ J v=J::arr(); for(long long q:x) v.push(J(is_float(t)?f_hex(t,q*16):le(q,width_of(t)))); return lay(leaf_j(t,v,0,width_of(t),"own")); }
  J some(const S_&t,int n){ std::vector<long long> x; for(int i=0;i<n;i++) x.push_back(g.below(9)); return nums(t,x); }
  J ints(int n){ return some(g.pick(IT),n); }
  J flts(int n){ return some(g.pick(std::vector<S_>{"float64","float32","float64","int32"}),n); }
  J obj(const std::vector<std::pair<S_,J> >&c){ J j=kind_j("o"),nm=J::arr(),ch=J::arr(); for(auto&p:c){ nm.push(J(p.first)); ch.push(p.second); } j.set("nm",nm).set("ch",ch); return j; }
  J list(const std::vector<J>&c){ J j=kind_j("l"),ch=J::arr(); for(auto&p:c) ch.push(p); j.set("ch",ch); return j; }
  void add(J&o,const S_&n,const J&c){ J nm=o["nm"],ch=o["ch"]; nm.push(J(n)); ch.push(c); o.set("nm",nm).set("ch",ch); }
  typedef std::vector<std::pair<S_,J> > Ps;
  std::vector<S_> axes(){ static const std::vector<std::vector<S_> > V={{"x"},{"x","y"},{"x","y","z"},{"r","z"},{"r"},{"r","theta"},{"r","theta","phi"},{"z","r"}}; return V[(size_t)g.below((int)V.size())]; }
  J dims(int d){ static const char*N[]={"i","j","k"}; Ps p; for(int i=0;i<d;i++) p.push_back({N[i],ints(1)}); return obj(p); }
  J coordset(){ std::vector<S_> a=axes(); Ps p; int q=g.below(3); S_ ty=q==0?"uniform":q==1?"rectilinear":"explicit"; p.push_back({"type",str(ty)});
    if(q==0){ p.push_back({"dims",dims((int)a.size())}); if(g.chance(60)){ Ps o; for(auto&x:a) o.push_back({x,flts(1)}); p.push_back({"origin",obj(o)}); } if(g.chance(60)){ Ps o; for(auto&x:a) o.push_back({"d"+x,flts(1)}); p.push_back({"spacing",obj(o)}); } }
    else { Ps o; int n=g.range(1,4); for(auto&x:a) o.push_back({x,flts(q==1?g.range(1,3):n)}); p.push_back({"values",obj(o)}); }
    if(g.chance(10)) p.push_back({"units",obj({{"x",str("cm")}})}); shuf(p); return obj(p); }
  template<class T> void shuf(std::vector<T>&p){ if(g.chance(40)) for(size_t i=p.size();i>1;i--) std::swap(p[i-1],p[(size_t)g.below((int)i)]); }
  J elems(const S_&shape,bool o2){ int n=g.range(1,3); Ps p={{"shape",str(shape)},{"connectivity",ints(g.range(1,6))}}; if(o2||g.chance(15)){ p.push_back({"sizes",ints(n)}); p.push_back({"offsets",ints(n)}); } shuf(p); return obj(p); }
  J mixed(){ static const std::vector<S_> SH={"tri","quad","tet","hex","line","polygonal","polyhedral","wedge"}; Ps m; std::vector<long long> ids; std::vector<S_> l=SH; int c=g.range(1,3); for(int i=0;i<c;i++){ size_t k=(size_t)g.below((int)l.size()); long long id=g.range(0,12); ids.push_back(id); m.push_back({l[k],nums(g.pick(IT),{id})}); l.erase(l.begin()+(long)k); } int n=g.range(1,4); std::vector<long long> s; for(int i=0;i<n;i++) s.push_back(ids[(size_t)g.below((int)ids.size())]);
    Ps p={{"shape",str("mixed")},{"shape_map",obj(m)},{"shapes",nums(g.pick(IT),s)},{"connectivity",ints(g.range(1,6))},{"sizes",ints(n)},{"offsets",ints(n)}}; shuf(p); return obj(p); }
  J topology(const std::vector<S_>&cs,const std::vector<S_>&fs){ static const std::vector<S_> SH={"point","line","tri","quad","tet","hex","wedge","pyramid"}; Ps p; int q=g.below(12); S_ ty=q<1?"points":q<2?"uniform":q<3?"rectilinear":q<5?"structured":"unstructured"; p.push_back({"type",str(ty)}); p.push_back({"coordset",str(g.pick(cs))});
    if(ty=="structured"){ Ps e={{"dims",dims(g.range(1,3))}}; if(g.chance(20)) e.push_back({"origin",dims(2)}); p.push_back({"elements",obj(e)}); }
    if(ty=="unstructured"){ int s=g.below(9); if(s<3) p.push_back({"elements",elems(g.pick(SH),false)}); else if(s==3) p.push_back({"elements",elems("polygonal",true)}); else if(s==4){ p.push_back({"elements",elems("polyhedral",true)}); p.push_back({"subelements",elems("polygonal",true)}); }
      else if(s<7){ p.push_back({"elements",mixed()}); if(g.chance(40)) p.push_back({"subelements",mixed()}); }
      else if(s==7){ Ps e,b; int c=g.range(1,3); static const char*N[]={"a","b","c"}; for(int i=0;i<c;i++){ int k=g.below(4); if(k<2) e.push_back({N[i],elems(g.pick(SH),false)}); else if(k==2) e.push_back({N[i],elems("polygonal",true)}); else { e.push_back({N[i],elems("polyhedral",true)}); b.push_back({N[i],elems("polygonal",true)}); } } p.push_back({"elements",obj(e)}); if(!b.empty()) p.push_back({"subelements",obj(b)}); }
      else { Ps e={{"element_types",ints(2)},{"stream",ints(5)}}; p.push_back({"elements",obj(e)}); } }
    if(!fs.empty()&&g.chance(15)) p.push_back({"grid_function",str(g.pick(fs))}); shuf(p); return obj(p); }
  std::vector<S_> mats(){ static const std::vector<S_> N={"m1","air","steel"}; std::vector<S_> r(N.begin(),N.begin()+g.range(1,3)); return r; }
  J matmap(const std::vector<S_>&m){ Ps p; long long i=0; S_ t=g.pick(IT); for(auto&x:m) p.push_back({x,nums(t,{i++})}); shuf(p); return obj(p); }
  J matset(const std::vector<S_>&ts){ Ps p={{"topology",str(g.pick(ts))}}; std::vector<S_> m=mats(); int n=g.range(1,4);
    if(g.chance(45)){ p.push_back({"volume_fractions",flts(n)}); p.push_back({"material_ids",ints(n)}); p.push_back({"material_map",matmap(m)}); if(g.chance(60)){ p.push_back({"sizes",ints(2)}); p.push_back({"offsets",ints(2)}); } if(g.chance(30)) p.push_back({"indices",ints(n)}); if(g.chance(25)) p.push_back({"element_ids",ints(n)}); }
    else { Ps v,e; for(auto&x:m){ if(g.chance(15)) v.push_back({x,obj({{"values",flts(n)},{"indices",ints(n)}})}); else v.push_back({x,flts(n)}); e.push_back({x,ints(n)}); } p.push_back({"volume_fractions",obj(v)}); if(g.chance(40)) p.push_back({"material_map",matmap(m)}); if(g.chance(40)){ shuf(e); p.push_back({"element_ids",obj(e)}); } }
    shuf(p); return obj(p); }
  J mc(const std::vector<S_>&c,int n){ Ps p; for(auto&x:c) p.push_back({x,flts(n)}); return obj(p); }
  J specset(const std::vector<S_>&ms){ int n=g.range(1,3); Ps v; for(auto&x:mats()) v.push_back({x,mc(g.chance(50)?std::vector<S_>{"s1","s2"}:std::vector<S_>{"s1"},n)}); Ps p={{"matset",str(g.pick(ms))},{"matset_values",obj(v)}}; if(g.chance(30)) p.push_back({"volume_dependent",str("true")}); shuf(p); return obj(p); }
  J field(const std::vector<S_>&ts,const std::vector<S_>&ms){ Ps p; int q=g.below(10); if(q<9) p.push_back({"association",str(g.chance(50)?"vertex":"element")}); if(q>7) p.push_back({"basis",str("H1_3D_P2")}); if(g.chance(40)) p.push_back({"volume_dependent",str(g.chance(50)?"true":"false")}); int n=g.range(1,3); bool mat=!ms.empty()&&g.chance(30),top=!mat||g.chance(60);
    if(top){ p.push_back({"topology",str(g.pick(ts))}); p.push_back({"values",g.chance(50)?flts(n):mc(g.chance(50)?std::vector<S_>{"u","v"}:std::vector<S_>{"x","y","z"},n)}); }
    if(mat){ p.push_back({"matset",str(g.pick(ms))}); int k=g.below(top?4:3); Ps v; if(k==0) p.push_back({"matset_values",flts(n)}); else if(k==3) p.push_back({"matset_values",mc({"u","v"},n)}); else { for(auto&x:mats()) v.push_back({x,k==1?flts(n):mc({"u","v"},n)}); p.push_back({"matset_values",obj(v)}); } }
    shuf(p); return obj(p); }
  J win(bool nest,int d){ Ps p={{"ratio",dims(d)}}; if(!nest||g.chance(60)) p.push_back({"origin",dims(d)}); if(!nest||g.chance(60)) p.push_back({"dims",dims(d)}); if(nest){ p.push_back({"domain_id",ints(1)}); p.push_back({"domain_type",str(g.chance(50)?"parent":"child")}); } shuf(p); return obj(p); }
  J adjset(const std::vector<S_>&ts){ Ps gs; int c=g.range(0,3); static const char*N[]={"group_0","group_1","g2"}; for(int i=0;i<c;i++){ Ps q={{"neighbors",ints(g.range(1,3))}}; int k=g.below(3); if(k<2) q.push_back({"values",ints(g.range(1,4))}); else { Ps w; int m=g.range(1,2),d=g.range(1,3); for(int j=0;j<m;j++) w.push_back({j?"window_1":"window_0",win(false,d)}); q.push_back({"windows",obj(w)}); if(g.chance(40)) q.push_back({"orientation",ints(3)}); } shuf(q); gs.push_back({N[i],obj(q)}); } Ps p={{"topology",str(g.pick(ts))},{"association",str(g.chance(70)?"vertex":"element")},{"groups",obj(gs)}}; shuf(p); return obj(p); }
  J nestset(const std::vector<S_>&ts){ Ps w; int m=g.range(1,3); static const char*N[]={"w0","w1","w2"}; for(int j=0;j<m;j++) w.push_back({N[j],win(true,g.range(1,3))}); Ps p={{"topology",str(g.pick(ts))},{"association",str(g.chance(50)?"vertex":"element")},{"windows",obj(w)}}; shuf(p); return obj(p); }
  J dom(){ std::vector<S_> cs={"c0","c1"},ts={"t0","t1"},ms={"m0"},fs={"f0","f1"}; cs.resize((size_t)g.range(1,2)); ts.resize((size_t)g.range(1,2)); bool mt=g.chance(35),ff=g.chance(70); if(!mt) ms.clear(); fs.resize(ff?(size_t)g.range(1,2):0); Ps p,q;
    if(g.chance(50)){ q={}; if(g.chance(60)) q.push_back({"domain_id",nums("int64",{g.below(5)})}); if(g.chance(60)) q.push_back({"cycle",nums(g.pick(IT),{g.below(99)})}); if(g.chance(60)) q.push_back({"time",nums("float64",{g.below(9)})}); p.push_back({"state",obj(q)}); }
    q.clear(); for(auto&x:cs) q.push_back({x,coordset()}); p.push_back({"coordsets",obj(q)}); q.clear(); for(auto&x:ts) q.push_back({x,topology(cs,fs)}); p.push_back({"topologies",obj(q)});
    if(mt){ q.clear(); for(auto&x:ms) q.push_back({x,matset(ts)}); p.push_back({"matsets",obj(q)}); if(g.chance(40)) p.push_back({"specsets",obj({{"s0",specset(ms)}})}); }
    if(ff){ q.clear(); for(auto&x:fs) q.push_back({x,field(ts,ms)}); p.push_back({"fields",obj(q)}); }
    if(g.chance(25)) p.push_back({"adjsets",obj({{"a0",adjset(ts)}})}); if(g.chance(20)) p.push_back({"nestsets",obj({{"n0",nestset(ts)}})}); if(g.chance(10)) p.push_back({"extra",flts(2)}); shuf(p); return obj(p); }
  J mesh(){ int q=g.below(10); if(q<6) return dom(); if(q==6&&g.chance(40)) return g.chance(50)?kind_j("e"):g.chance(50)?kind_j("l"):kind_j("o"); int c=g.range(1,3); if(g.chance(50)){ std::vector<J> l; for(int i=0;i<c;i++) l.push_back(dom()); return list(l); } Ps p; static const char*N[]={"domain_000000","domain_000001","zz"}; for(int i=0;i<c;i++) p.push_back({N[i],dom()}); return obj(p); }
  // index forms
  J idx_of(const S_&p){ Ps q; if(p=="coordset/index"){ std::vector<S_> a=axes(); Ps ax; for(auto&x:a) ax.push_back({x,kind_j("e")}); bool sph=false,cyl=false; for(auto&x:a){ sph|=x=="theta"; cyl|=x=="r"; } q={{"type",str(g.chance(50)?"uniform":"explicit")},{"path",str("a/b")},{"coord_system",obj({{"type",str(sph?"spherical":cyl?"cylindrical":"cartesian")},{"axes",obj(ax)}})}}; }
    else if(p=="topology/index"){ q={{"type",str("unstructured")},{"coordset",str("c0")},{"path",str("p")}}; if(g.chance(30)) q.push_back({"grid_function",str("f0")}); }
    else if(p=="matset/index"){ q={{"topology",str("t0")},{"path",str("p")}}; if(g.chance(60)) q.push_back({"material_map",matmap(mats())}); else q.push_back({"materials",obj({{"m1",kind_j("e")}})}); }
    else if(p=="specset/index") q={{"matset",str("m0")},{"path",str("p")},{"species",obj({{"m1",obj({{"s1",kind_j("e")}})}})}};
    else if(p=="field/index"){ q={{"number_of_components",ints(1)},{"path",str("p")}}; if(g.chance(80)) q.push_back({"association",str("vertex")}); else q.push_back({"basis",str("b")}); int k=g.below(3); if(k<2) q.push_back({"topology",str("t0")}); if(k>0) q.push_back({"matset",str("m0")}); }
    else q={{"topology",str("t0")},{"association",str("element")},{"path",str("p")}};
    shuf(q); return obj(q); }
  J index(){ Ps p={{"coordsets",obj({{"c0",idx_of("coordset/index")}})},{"topologies",obj({{"t0",idx_of("topology/index")}})}}; if(g.chance(50)) p.push_back({"matsets",obj({{"m0",idx_of("matset/index")}})}); if(g.chance(40)) p.push_back({"specsets",obj({{"s0",idx_of("specset/index")}})}); if(g.chance(60)) p.push_back({"fields",obj({{"f0",idx_of("field/index")},{"f1",idx_of("field/index")}})}); if(g.chance(40)) p.push_back({"adjsets",obj({{"a0",idx_of("adjset/index")}})}); if(g.chance(40)) p.push_back({"nestsets",obj({{"n0",idx_of("nestset/index")}})}); shuf(p); return obj(p); }
  J part(const S_&p){ std::vector<S_> ts={"t0"},ms={"m0"};
    if(p=="mesh") return mesh(); if(p=="index") return index(); if(p=="coordset") return coordset(); if(p=="topology") return topology({"c0"},{"f0"}); if(p=="matset") return matset(ts); if(p=="specset") return specset(ms); if(p=="field") return field(ts,ms); if(p=="adjset") return adjset(ts); if(p=="nestset") return nestset(ts);
    if(p=="coordset/type"||p=="topology/type"||p=="topology/shape"||p=="association"||p=="nestset/type") return str(word()); if(p=="dims") return dims(g.range(1,3)); if(p=="coord_system"){ J c=idx_of("coordset/index"); for(size_t i=0;i<c["nm"].size();i++) if(c["nm"].at(i).s=="coord_system") return c["ch"].at(i); }
    if(p=="mcarray") return mc({"x","y"},3); if(p=="o2mrelation") return elems("tri",g.chance(50)); return idx_of(p); }
  // -------------------------------------------------- spoiling them
  S_ word(){ static const std::vector<S_> W={"uniform","rectilinear","explicit","points","structured","unstructured","point","line","tri","quad","tet","hex","wedge","pyramid","polygonal","polyhedral","mixed","vertex","element","parent","child","cartesian","cylindrical","spherical","c0","c1","t0","t1","m0","f0","f1","nope","","Uniform","logical"}; return g.pick(W); }
  S_ name(){ static const std::vector<S_> W={"type","dims","origin","spacing","values","coordset","elements","subelements","shape","shapes","shape_map","connectivity","sizes","offsets","indices","grid_function","element_types","topology","matset","volume_fractions","material_ids","material_map","element_ids","matset_values","association","basis","groups","neighbors","windows","orientation","ratio","domain_id","domain_type","i","j","k","x","y","z","r","theta","dx","coordsets","topologies","matsets","specsets","fields","adjsets","nestsets","path","coord_system","axes","materials","species","number_of_components","m1","air","tri","quad","polygonal","a","b","odd"}; return g.pick(W); }
  J thing(int d=1){ switch(g.below(12)){ case 0: return kind_j("e"); case 1: return kind_j("o"); case 2: return kind_j("l"); case 3: case 4: return str(word()); case 5: return ints(1); case 6: return ints(g.range(1,4)); case 7: return flts(g.range(1,4)); case 8: return some("float64",g.range(1,3)); case 9: return d>0?list({thing(d-1),thing(d-1)}):ints(2); case 10: return d>0?obj({{name(),thing(d-1)}}):flts(1); default: return d>0?mc({"x","y"},g.range(1,3)):str("x"); } }
  J spoil(const J&j,S_&what){ const S_ k=j["k"].s; J r=j; bool box=k=="o"||k=="l";
    if(box&&j["ch"].size()&&g.chance(72)){ size_t i=(size_t)g.below((int)j["ch"].size()); J ch=j["ch"]; what+="/"+(k=="o"?j["nm"].at(i).s:std::to_string(i)); ch.a[i]=spoil(ch.a[i],what); r.set("ch",ch); return r; }
    if(k=="o"&&g.chance(75)){ J ch=j["ch"],nm=j["nm"]; int q=g.below(4); if(q==0&&ch.size()){ size_t i=(size_t)g.below((int)ch.size()); what+=" -"+nm.at(i).s; ch.a.erase(ch.a.begin()+(long)i); nm.a.erase(nm.a.begin()+(long)i); } else { S_ nn=name(); bool has=false; for(size_t i=0;i<nm.size();i++) has|=nm.at(i).s==nn; if(!has){ if(q==1&&ch.size()){ size_t i=(size_t)g.below((int)ch.size()); what+=" "+nm.at(i).s+">"+nn; nm.a[i]=J(nn); } else { what+=" +"+nn; nm.push(J(nn)); ch.push(thing()); } } } r.set("ch",ch).set("nm",nm); return r; }
    if(k=="d"&&g.chance(60)){ const S_ t=j["t"].s; if(t=="char8_str"){ what+=" word"; return str(word()); } int q=g.below(3); J v=j["v"]; if(q==0){ what+=" len"; return some(t,g.range(1,4)); } if(q==1){ what+=" type"; return some(is_float(t)?"int32":"float64",(int)v.size()); } what+=" val"; return some(t,(int)v.size()); }
    what+=" !"; return thing(); }
};
static J gen(Rng&g,const S_&prof){ G G_(g); J op=J::obj(); static const std::vector<S_> P={"coordset","topology","matset","specset","field","adjset","nestset","index","coordset/index","topology/index","matset/index","specset/index","field/index","adjset/index","nestset/index","coordset/type","topology/type","topology/shape","association","dims","coord_system","nestset/type","mcarray","o2mrelation","other"};
  S_ p=g.chance(50)?"mesh":g.chance(40)?"topology":g.pick(P); J t=G_.part(p); S_ what; int m=g.chance(35)?0:g.range(1,2); if(p=="mesh"&&m==0&&prof=="one") m=1; for(int i=0;i<m;i++){ what+=i?" ; ":""; t=G_.spoil(t,what); }
  static const std::vector<std::pair<S_,S_> > R={{"",""},{"mesh","mesh/"},{"a/b","a/b/"},{"dir/","dir/"}}; size_t k=(size_t)g.below((int)R.size());
  op.set("op","verify").set("p",p).set("full",t).set("tree",norm(t)).set("muts",what).set("via",g.chance(25)&&p!="coord_system"&&p!="dims"&&p!="association"&&p.find("/type")==S_::npos&&p.find("/shape")==S_::npos?"bp":"").set("idx",p=="mesh"&&m==0).set("ref",R[k].first).set("nd",g.range(1,9)); op.set("stale",g.chance(30)); op.set("pre",R[k].second); return op; }
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
