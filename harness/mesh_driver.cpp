// Driver for spec/MeshConv.tla: mesh conversions and derived topologies.
#include "vh_mesh.hpp"
using namespace vh; using namespace conduit; namespace bm=conduit::blueprint::mesh;
static std::string numstr(const Node&n,idx_t i){ char b[64]; if(n.dtype().is_floating_point()){ snprintf(b,sizeof b,"%.17g",n.as_float64_accessor()[i]); } else if(n.dtype().is_unsigned_integer()) snprintf(b,sizeof b,"%llu",(unsigned long long)n.as_uint64_accessor()[i]); else snprintf(b,sizeof b,"%lld",(long long)n.as_int64_accessor()[i]); return b; }
static void put_str(Node&n,const std::string&t,const J&v,Build&B){ int w=width_of(t); J h=J::arr(); for(size_t i=0;i<v.size();i++){ const std::string&s=v.at(i).s; if(t=="float32"){ float y=(float)atof(s.c_str()); h.push(J(hex(&y,4))); } else if(t=="float64"){ double y=atof(s.c_str()); h.push(J(hex(&y,8))); } else { uint64_t y=s[0]=='-'?(uint64_t)strtoll(s.c_str(),0,10):strtoull(s.c_str(),0,10); h.push(J(hex(&y,w))); } } J j=leaf_j(t,h,0,w,"own"); layout_j(B.g,j,B.vary); build(n,j,B.A); }
// the size of the simplex with the given points (signed in the plane)
static double simplex(const std::vector<std::vector<double>>&P){ size_t D=P[0].size(); auto sub=[&](size_t a,size_t b){ std::vector<double> v; for(size_t d=0;d<D;d++) v.push_back(P[a][d]-P[b][d]); return v; }; if(D==2){ auto u=sub(1,0),v=sub(2,0); return (u[0]*v[1]-u[1]*v[0])/2; } auto u=sub(1,0),v=sub(2,0); double c[3]={u[1]*v[2]-u[2]*v[1],u[2]*v[0]-u[0]*v[2],u[0]*v[1]-u[1]*v[0]}; if(P.size()==3) return std::sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2])/2; auto w=sub(3,0); return std::fabs(c[0]*w[0]+c[1]*w[1]+c[2]*w[2])/6; }
static long long ppm(double x){ double y=x*1e6; return y>-1e9&&y<1e9?(long long)llround(y):-999999999LL; }
// generate_sides with fields
static J sides_fields(const J&op,Node&m,Node&rt,Node&rc,Node&s2d,Node&d2s){
  Arena A; Build B(op["how"],A); Node keep; J o=J::obj(); const J&F=op["fl"]; for(size_t i=0;i<F.size();i++){ const J&f=F.at(i); Node&n=m["fields"][f["n"].s]; n["association"]=f["a"].s; n["topology"]=f["tp"].s; if(f["vd"].s.size()) n["volume_dependent"]=f["vd"].s; put_str(n["values"],f["t"].s,f["v"],B); }
  Node opts,fd; if(op["pf"].s.size()) opts["field_prefix"]=op["pf"].s; if(op["sel"].b){ if(op["nm"].size()==1&&op["str"].b) opts["field_names"]=op["nm"].at(0).s; else { opts["field_names"].set(DataType::list()); for(size_t i=0;i<op["nm"].size();i++) opts["field_names"].append()=op["nm"].at(i).s; } }
  std::string before=vtree(m).str(); const Node&cm=m; const Node&t=cm["topologies/topo"]; bool plain=!op["sel"].b&&op["pf"].s.empty()&&op["str"].b;
  if(plain) bm::topology::unstructured::generate_sides(t,rt,rc,fd,s2d,d2s); else bm::topology::unstructured::generate_sides(t,rt,rc,fd,s2d,d2s,opts);
  o.set("fsrc",vtree(m).str()==before);
  // sizes of the sides and their share of their element
  std::vector<std::vector<double>> Q; { const Node&v=rc["values"]; for(idx_t d=0;d<v.number_of_children();d++){ float64_accessor x=v.child(d).as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++){ if((idx_t)Q.size()<=i) Q.resize((size_t)i+1); Q[(size_t)i].push_back(x[i]); } } }
  IV cn=read_num(rt["elements/connectivity"]),own=read_num(d2s["values"]); size_t w=rt["elements/shape"].as_string()=="tet"?4:3; std::vector<double> sz; std::map<long long,double> tot; for(size_t k=0;k+w<=cn.size();k+=w){ std::vector<std::vector<double>> P; for(size_t j=0;j<w;j++) P.push_back(Q[(size_t)cn[k+j]]); sz.push_back(simplex(P)); if(k/w<own.size()) tot[own[k/w]]+=sz.back(); }
  J share=J::arr(); for(size_t k=0;k<sz.size();k++) share.push(J(k<own.size()?ppm(sz[k]/tot[own[k]]):0LL)); o.set("share",share);
  J fs=J::arr(); for(idx_t i=0;i<fd.number_of_children();i++){ const Node&n=fd.child(i); J x=J::obj(); const std::string nm=n.name(); std::string vd=str_at(n,"volume_dependent"); J v=J::arr(),q=J::arr(); const Node&vals=n["values"]; const J*sf=0; for(size_t k=0;k<F.size();k++) if(op["pf"].s+F.at(k)["n"].s==nm) sf=&F.at(k); if(vals.dtype().is_number()) for(idx_t k=0;k<vals.dtype().number_of_elements();k++){ v.push(J(numstr(vals,k))); double y=vals.as_float64_accessor()[k]; if(str_at(n,"association")=="vertex") q.push(J(y==std::floor(y)&&std::fabs(y)<1e9?(long long)y:-999999999LL)); else if(vd=="true"){ if(sf){ double f0=(size_t)k<own.size()?atof((*sf)["v"].at((size_t)own[(size_t)k]).s.c_str()):0; q.push(J(ppm(y/f0))); } else q.push(J((size_t)k<sz.size()?(sz[(size_t)k]==0?(y==0?1000000LL:0LL):ppm(y/sz[(size_t)k])):0LL)); } } x.set("n",nm).set("a",str_at(n,"association")).set("tp",str_at(n,"topology")).set("vd",vd).set("t",tname(vals.dtype().id())).set("v",v).set("q",q).set("nc",(long long)n.number_of_children()); fs.push(x); } o.set("fl",fs); return o; }
static J exec(const J&op){
  const std::string o=op["op"].s; Arena A; Node m,info; build_mesh(m,op["m"],op["how"],A); J out=J::obj(); const Node&cm=m; const Node&t=cm["topologies/topo"]; const Node&c=cm["coordsets/coords"];
  std::string before=vtree(m).str(); Node r; Node&rt=r["topologies/out"]; Node&rc=r["coordsets/oc"]; if(op["pre"].b){ rt["junk"]=1; rc["values/q"]=2.5; }
  auto src=[&](){ return vtree(m).str()==before; };
  try {
    if(o=="query"){ out.set("ok",true).set("err","").set("ver",bm::verify(m,info)).set("nelem",(long long)bm::topology::length(t)).set("npts",(long long)bm::coordset::length(c)).set("cdim",(long long)bm::coordset::dims(c)).set("tdim",(long long)bm::topology::dims(t));
      J p=J::arr(); if(t["type"].as_string()=="unstructured") for(idx_t i=0;i<bm::topology::length(t);i++){ std::vector<index_t> v=bm::utils::topology::unstructured::points(t,i); J a=J::arr(); for(auto x:v) a.push(J((long long)x)); p.push(a); } out.set("pts",p);
      J of=J::arr(),sof=J::arr(); if(t["type"].as_string()=="unstructured"){ Node d,s; if(op["m"]["t"]["shape"].s=="polyhedral") bm::topology::unstructured::generate_offsets(t,d,s); else bm::topology::unstructured::generate_offsets(t,d); of=jints(read_num(d)); sof=jints(read_num(s)); } out.set("offs",of).set("soffs",sof); return out; }
    if(o=="cset"){ const std::string f=op["m"]["c"]["type"].s; Node d; if(op["pre"].b) d["junk"]=1; if(op["via"].s=="any") bm::coordset::to_explicit(c,d); else if(f=="uniform"&&op["ctype"].s=="rectilinear") bm::coordset::uniform::to_rectilinear(c,d); else if(f=="uniform") bm::coordset::uniform::to_explicit(c,d); else bm::coordset::rectilinear::to_explicit(c,d); out.set("ok",true).set("err","").set("ver",bm::coordset::verify(d,info)).set("c",raw_coords(d)).set("src",src()); return out; }
    if(o=="conv"){ const std::string f=op["m"]["t"]["type"].s,to=op["ttype"].s;
      if(f=="uniform"){ if(to=="rectilinear") bm::topology::uniform::to_rectilinear(t,rt,rc); else if(to=="structured") bm::topology::uniform::to_structured(t,rt,rc); else bm::topology::uniform::to_unstructured(t,rt,rc); }
      else if(f=="rectilinear"){ if(to=="structured") bm::topology::rectilinear::to_structured(t,rt,rc); else bm::topology::rectilinear::to_unstructured(t,rt,rc); }
      else bm::topology::structured::to_unstructured(t,rt,rc);
      out.set("ok",true).set("err","").set("c",raw_coords(rc)).set("t",raw_topo(rt)).set("cref",str_at(rt,"coordset")=="oc").set("ver",bm::verify(r,info)).set("src",src()); return out; }
    if(o=="poly"){ if(op["via"].s=="polytopal") bm::topology::unstructured::to_polytopal(t,rt); else bm::topology::unstructured::to_polygonal(t,rt); r["coordsets"].reset(); r["coordsets/coords"].set_external(const_cast<Node&>(c)); out.set("ok",true).set("err","").set("t",raw_topo(rt)).set("ver",bm::verify(r,info)).set("src",src()); return out; }
    Node s2d,d2s; if(op["pre"].b){ s2d["junk"]=1; d2s["values"]=2; }
    if(o=="derive"){ long long d=op["dim"].i; if(d==0) bm::topology::unstructured::generate_points(t,rt,s2d,d2s); else if(d==1) bm::topology::unstructured::generate_lines(t,rt,s2d,d2s); else bm::topology::unstructured::generate_faces(t,rt,s2d,d2s); out.set("ok",true).set("err","").set("t",raw_topo(rt)).set("s2d",raw_o2m(s2d)).set("d2s",raw_o2m(d2s)).set("src",src()); return out; }
    if(o=="centroids"){ bm::topology::unstructured::generate_centroids(t,rt,rc,s2d,d2s); auto flat=[](const Node&n){ IV v=read_num(n),w; for(size_t i=0;i+1<v.size();i+=2) w.push_back(v[i]==1?v[i+1]:-1); return jints(w); }; out.set("ok",true).set("err","").set("c",raw_coords(rc)).set("t",raw_topo(rt)).set("ver",bm::verify(r,info)).set("s2d",flat(s2d)).set("d2s",flat(d2s)).set("src",src()); return out; }
    J xf=J::obj(); if(o=="sidesf") xf=sides_fields(op,m,rt,rc,s2d,d2s); else if(o=="sides") bm::topology::unstructured::generate_sides(t,rt,rc,s2d,d2s); else bm::topology::unstructured::generate_corners(t,rt,rc,s2d,d2s);
    out.set("ok",true).set("err","").set("c",raw_coords(rc)).set("t",raw_topo(rt)).set("ver",bm::verify(r,info)).set("s2d",raw_o2m(s2d)).set("d2s",raw_o2m(d2s)).set("src",o=="sidesf"?xf["fsrc"].b:src()); if(o=="sidesf") out.set("fl",xf["fl"]).set("share",xf["share"]); return out;
  } catch(conduit::Error&e){ J x=J::obj(); x.set("ok",false).set("err",e.message()); return x; }
}
static J gen(Rng&g,const std::string&prof){
  J op=J::obj(); MeshOpts O; op.set("how",rand_how(g)).set("pre",g.chance(20)).set("via","").set("ctype","").set("ttype","").set("dim",0);
  if(prof=="conv"){ int q=g.below(100);
    if(q<25){ O.kinds=all_kinds(); O.unit=1; J m=rand_mesh(g,O); op.set("op","query").set("m",m); return op; }
    if(q<45){ O.kinds={"uniform","rectilinear","points"}; O.unit=1; J m=rand_mesh(g,O); op.set("op","cset").set("m",m); if(m["c"]["type"].s=="explicit"||g.chance(40)) op.set("via","any").set("ctype","explicit"); else op.set("ctype",m["c"]["type"].s=="uniform"&&g.chance(50)?"rectilinear":"explicit"); return op; }
    if(q<80){ O.kinds={"uniform","rectilinear","structured"}; O.unit=1; J m=rand_mesh(g,O); std::string f=m["t"]["type"].s; int k=g.below(3); std::string to=f=="uniform"?(k==0?"rectilinear":k==1?"structured":"unstructured"):f=="rectilinear"&&k==0?"structured":"unstructured"; op.set("op","conv").set("m",m).set("ttype",to).set("ctype",to=="rectilinear"?"rectilinear":"explicit"); return op; }
    O.kinds={"tri","quad","tet","hex","polygonal","polyhedral","wedge","pyramid"}; O.unit=1; op.set("op","poly").set("m",rand_mesh(g,O)).set("via",g.chance(50)?"polytopal":"polygonal"); return op; }
  int q=g.below(100); O.axes=g.chance(30); O.gaps=false;
  if(q<45){ O.kinds={"line","tri","quad","tet","hex","polygonal","polyhedral","wedge","pyramid"}; J m=rand_mesh(g,O); std::string s=m["t"]["shape"].s; int md=s=="line"?1:2; op.set("op","derive").set("m",m).set("dim",g.range(0,md)); return op; }
  O.kinds={"tri","quad","tet","hex","polygonal","polyhedral","wedge","pyramid"}; 
  if(q<60) O.kinds.push_back("line"),O.kinds.push_back("point"),op.set("op","centroids"); else if(q<75) op.set("op","sides"); else if(q<88) op.set("op","sidesf"); else op.set("op","corners");
  bool rep=op["op"].s=="centroids"&&g.chance(30); if(rep) O.unit=840; if(op["op"].s=="sidesf") O.axes=false; J m=rand_mesh(g,O);
  if(rep&&m["t"]["shape"].s!="polyhedral"&&m["t"]["shape"].s!="point"){ // repeated points count once
    IV c=ivec(m["t"]["conn"]),s=ivec(m["t"]["sizes"]); long long a=m["t"]["shape"].s=="line"?2:m["t"]["shape"].s=="tri"?3:m["t"]["shape"].s=="pyramid"?5:m["t"]["shape"].s=="wedge"?6:m["t"]["shape"].s=="hex"?8:4; size_t b=0,k=0; while(b<c.size()){ size_t n=s.size()?(size_t)s[k++]:(size_t)a; if(n<=8&&g.chance(60)){ int r=g.range(1,(int)n-1); for(size_t i=n-(size_t)r;i<n;i++) c[b+i]=g.chance(75)?c[b+n-(size_t)r-1]:c[b]; } b+=n; } J t=m["t"]; t.set("conn",jints(c)); m.set("t",t); }
  op.set("m",m);
  if(op["op"].s=="sidesf"){ long long ne=0; { const J&t=m["t"]; if(t["sizes"].size()) ne=(long long)t["sizes"].size(); else { std::string s=t["shape"].s; long long a=s=="tri"?3:s=="pyramid"?5:s=="wedge"?6:s=="hex"?8:4; ne=(long long)t["conn"].size()/a; } } long long np=(long long)m["c"]["v"].at(0).size(); J fl=J::arr(),nm=J::arr(); static const std::vector<std::string> T={"float64","float32","int32","int64","uint32","uint64"}; int n=g.range(0,4); bool bad=false;
    for(int i=0;i<n;i++){ J f=J::obj(),v=J::arr(); bool el=g.chance(60),vd=el&&g.chance(40),other=g.chance(12); std::string t=g.pick(T); for(long long k=0;k<(el?ne:np);k++){ char b[40]; if(!el) snprintf(b,sizeof b,"%lld",27720LL*g.range(t[0]=='u'?0:-300,300)); else if(t=="int64"&&g.chance(40)) snprintf(b,sizeof b,"%lld",(long long)(g.next()>>2)*(g.chance(50)?1:-1)); else if(t=="uint64"&&g.chance(40)) snprintf(b,sizeof b,"%llu",(unsigned long long)(g.next()|(1ULL<<62))); else if(t=="float64"&&g.chance(40)) snprintf(b,sizeof b,"%.17g",g.range(1,100000)/1024.0); else snprintf(b,sizeof b,"%d",g.range(1,1000)); if(vd){ snprintf(b,sizeof b,"%d",g.range(1,1000)); } v.push(J(std::string(b))); }
      std::string name=std::string(el?"e":"p")+std::to_string(i); f.set("n",name).set("a",el?"element":"vertex").set("t",t).set("vd",vd?"true":g.chance(30)?"false":"").set("tp",other?"t2":"topo").set("v",v); fl.push(f); if(g.chance(60)){ nm.push(J(name)); bad|=other; } }
    bool sel=g.chance(40)&&nm.size()>0; if(sel&&g.chance(10)){ nm.push(J("missing")); bad=true; } bool none=fl.size()==0; op.set("fl",fl).set("nm",sel?nm:J::arr()).set("sel",sel).set("bad",sel&&bad).set("str",g.chance(50)).set("pf",g.chance(30)?"n_":"").set("none",none); }
  return op;
}
int main(int c,char**v){ return fun_main(c,v,gen,exec); }
