// Random small meshes as plain records ("raw" meshes), their Blueprint trees in
// any element type and memory layout, and the reading of trees back to records.
#ifndef VH_MESH_HPP
#define VH_MESH_HPP
#include "vh_fun.hpp"
#include "conduit_blueprint.hpp"
namespace vh {
using conduit::float64; using conduit::float32; using conduit::int32; using conduit::int64; using conduit::float64_accessor; using conduit::index_t;
typedef std::vector<long long> IV;
inline J jints(const IV&v){ J a=J::arr(); for(long long x:v) a.push(J(x)); return a; }
inline IV ivec(const J&j){ IV v; for(size_t i=0;i<j.size();i++) v.push_back(j.at(i).i); return v; }
// a number leaf of type t in a random layout
inline void put_num(Node&n,const std::string&t,const IV&v,Rng&g,Arena&A,bool vary=true){
  int w=width_of(t); J h=J::arr(); for(long long x:v) h.push(J(is_float(t)?f_hex(t,x*16):le(x,w))); J j=leaf_j(t,h,0,w,"own"); layout_j(g,j,vary); build(n,j,A); }
// coordinates are written and read in units of 1/CDIV (1, 2, 4, 8 or 16)
inline long long&CDIV(){ static long long d=1; return d; }
inline void put_crd(Node&n,const std::string&t,const IV&v,Rng&g,Arena&A,bool vary){ int w=width_of(t); J h=J::arr(); for(long long x:v) h.push(J(f_hex(t,x*(16/CDIV())))); J j=leaf_j(t,h,0,w,"own"); layout_j(g,j,vary); build(n,j,A); }
// whole-number reading (values off by more than the rounding of an average are kept apart)
inline long long whole(double x){ double r=std::floor(x+0.5); if(std::fabs(x-r)>1e-2) return 777777777; return (long long)r; }
inline IV read_num(const Node&n){ IV v; if(!n.dtype().is_number()) return v; float64_accessor x=n.as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++) v.push_back(whole(x[i])); return v; }
inline IV read_crd(const Node&n){ IV v; if(!n.dtype().is_number()) return v; float64_accessor x=n.as_float64_accessor(); for(idx_t i=0;i<x.number_of_elements();i++) v.push_back(whole(x[i]*(double)CDIV())); return v; }
inline IV read_at(const Node&n,const std::string&p){ return n.has_path(p)?read_num(n[p]):IV(); }
inline std::string str_at(const Node&n,const std::string&p){ return n.has_path(p)&&n[p].dtype().is_string()?n[p].as_string():std::string(); }

// ------------------------------------------------------------ reading trees
inline J raw_coords(const Node&c){
  J j=J::obj(); std::string t=str_at(c,"type"); J ax=J::arr(),v=J::arr();
  if(c.has_child("values")&&c["values"].dtype().is_object()) for(idx_t i=0;i<c["values"].number_of_children();i++){ ax.push(J(c["values"].child(i).name())); v.push(jints(read_crd(c["values"].child(i)))); }
  IV d,o,s; static const char*L[3]={"i","j","k"}; for(int i=0;i<3;i++) if(c.has_path(std::string("dims/")+L[i])) d.push_back(c[std::string("dims/")+L[i]].to_int64());
  if(c.has_child("origin")) for(idx_t i=0;i<c["origin"].number_of_children();i++){ o.push_back(whole(c["origin"].child(i).to_float64()*(double)CDIV())); }
  if(c.has_child("spacing")) for(idx_t i=0;i<c["spacing"].number_of_children();i++) s.push_back(whole(c["spacing"].child(i).to_float64()*(double)CDIV()));
  if(t=="uniform") for(size_t i=0;i<d.size();i++) ax.push(J(std::string(1,"xyz"[i])));
  j.set("type",t).set("ax",ax).set("v",v).set("dims",jints(d)).set("org",jints(o)).set("sp",jints(s)); return j; }
inline J raw_topo(const Node&t){
  J j=J::obj(); IV d,o,fo,st; static const char*L[3]={"i","j","k"};
  for(int i=0;i<3;i++){ if(t.has_path(std::string("elements/dims/")+L[i])) d.push_back(t[std::string("elements/dims/")+L[i]].to_int64()); if(t.has_path(std::string("elements/origin/")+L[i]+"0")) o.push_back(t[std::string("elements/origin/")+L[i]+"0"].to_int64()); }
  j.set("type",str_at(t,"type")).set("shape",str_at(t,"elements/shape")).set("conn",jints(read_at(t,"elements/connectivity"))).set("sizes",jints(read_at(t,"elements/sizes"))).set("offsets",jints(read_at(t,"elements/offsets")));
  j.set("sshape",str_at(t,"subelements/shape")).set("sconn",jints(read_at(t,"subelements/connectivity"))).set("ssizes",jints(read_at(t,"subelements/sizes"))).set("soffsets",jints(read_at(t,"subelements/offsets")));
  j.set("dims",jints(d)).set("org",jints(o)).set("doff",jints(read_at(t,"elements/dims/offsets"))).set("dstr",jints(read_at(t,"elements/dims/strides"))); return j; }
inline J raw_o2m(const Node&n){ J r=J::arr(); if(!n.has_child("values")) return r; IV v=read_num(n["values"]),s=read_at(n,"sizes"),o=read_at(n,"offsets"); for(size_t i=0;i<s.size();i++){ IV x; for(long long k=0;k<s[i];k++){ size_t q=(size_t)(o[i]+k); x.push_back(q<v.size()?v[q]:-999); } r.push(jints(x)); } return r; }

// ------------------------------------------------------------ building trees
struct Build { Rng g; Arena&A; std::string it,ft; bool vary; Build(const J&how,Arena&a):g((uint64_t)how["lay"].i),A(a),it(how["it"].s),ft(how["ft"].s),vary(how["vary"].b){} };
inline void build_coords(Node&c,const J&j,Build&B){
  c.reset(); c["type"]=j["type"].s; static const char*L[3]={"i","j","k"};
  if(j["type"].s=="uniform"){ for(size_t i=0;i<j["dims"].size();i++) c["dims"][L[i]].set((int64)j["dims"].at(i).i); for(size_t i=0;i<j["org"].size();i++){ std::string a=j["ax"].at(i).s; if(B.ft=="float32") c["origin"][a].set((float32)j["org"].at(i).i/(float32)CDIV()); else c["origin"][a].set((float64)j["org"].at(i).i/(float64)CDIV()); } for(size_t i=0;i<j["sp"].size();i++) c["spacing"]["d"+j["ax"].at(i).s].set((float64)j["sp"].at(i).i/(float64)CDIV()); return; }
  for(size_t i=0;i<j["v"].size();i++) put_crd(c["values"][j["ax"].at(i).s],B.ft,ivec(j["v"].at(i)),B.g,B.A,B.vary); }
inline void build_topo(Node&t,const J&j,const std::string&cname,Build&B){
  t.reset(); t["type"]=j["type"].s; t["coordset"]=cname; static const char*L[3]={"i","j","k"};
  for(size_t i=0;i<j["dims"].size();i++) t["elements/dims"][L[i]].set((int32)j["dims"].at(i).i);
  if(j["doff"].size()) put_num(t["elements/dims/offsets"],"int32",ivec(j["doff"]),B.g,B.A,false);
  if(j["dstr"].size()) put_num(t["elements/dims/strides"],"int32",ivec(j["dstr"]),B.g,B.A,false);
  for(size_t i=0;i<j["org"].size();i++) t["elements/origin"][std::string(L[i])+"0"].set((int32)j["org"].at(i).i);
  if(j["type"].s!="unstructured") return;
  t["elements/shape"]=j["shape"].s; put_num(t["elements/connectivity"],B.it,ivec(j["conn"]),B.g,B.A,B.vary);
  if(j["sizes"].size()) put_num(t["elements/sizes"],B.it,ivec(j["sizes"]),B.g,B.A,B.vary);
  if(j["offsets"].size()) put_num(t["elements/offsets"],B.it,ivec(j["offsets"]),B.g,B.A,B.vary);
  if(j["sshape"].s.size()){ t["subelements/shape"]=j["sshape"].s; put_num(t["subelements/connectivity"],B.it,ivec(j["sconn"]),B.g,B.A,B.vary); put_num(t["subelements/sizes"],B.it,ivec(j["ssizes"]),B.g,B.A,B.vary); if(j["soffsets"].size()) put_num(t["subelements/offsets"],B.it,ivec(j["soffsets"]),B.g,B.A,B.vary); } }
inline J rand_how(Rng&g){ static const std::vector<std::string> I={"int32","int64","int32","int64","uint32","uint64","int16"}; static const std::vector<std::string> F={"float64","float64","float32"}; J h=J::obj(); h.set("it",g.pick(I)).set("ft",g.pick(F)).set("lay",(long long)g.range(1,1000000)).set("vary",g.chance(60)); return h; }

// ------------------------------------------------------------ random meshes
inline long long lin(const int*n,int i,int j,int k){ return i+(long long)n[0]*(j+(long long)n[1]*k); }
struct MeshOpts { std::vector<std::string> kinds; bool axes=true; int unit=120; int maxe=3; bool drop=true; bool gaps=true; };
inline const std::vector<std::string>&all_kinds(){ static std::vector<std::string> K={"points","uniform","rectilinear","structured","point","line","tri","quad","tet","hex","polygonal","polyhedral","wedge","pyramid"}; return K; }
// raw mesh: {"c":coords,"t":topo}
inline J rand_mesh(Rng&g,const MeshOpts&O){
  std::string kind=g.pick(O.kinds); int U=O.unit;
  int td=kind=="line"||kind=="point"?g.range(1,3):kind=="tri"||kind=="quad"||kind=="polygonal"?g.range(2,3):kind=="tet"||kind=="hex"||kind=="polyhedral"||kind=="wedge"||kind=="pyramid"?3:g.range(1,3);
  int gd=(kind=="tri"||kind=="quad"||kind=="polygonal")?2:td; // grid dimension
  int e[3]={0,0,0},n[3]={1,1,1}; for(int d=0;d<gd;d++){ e[d]=g.range(1,gd==3?2:O.maxe); if(gd==3&&d==0&&g.chance(30)) e[d]=3; n[d]=e[d]+1; }
  for(int d=gd;d<3;d++) e[d]=1;
  J m=J::obj(),c=J::obj(),t=J::obj(); J ax=J::arr(); static const char*AX[3]={"x","y","z"}; for(int d=0;d<td;d++) ax.push(J(AX[d]));
  if(O.axes&&td==3&&g.chance(15)){ ax=J::arr(); ax.push(J("r")).push(J("theta")).push(J("phi")); } if(O.axes&&td==2&&g.chance(15)){ ax=J::arr(); ax.push(J("z")).push(J("r")); }
  t.set("type","").set("shape","").set("conn",J::arr()).set("sizes",J::arr()).set("offsets",J::arr()).set("sshape","").set("sconn",J::arr()).set("ssizes",J::arr()).set("soffsets",J::arr()).set("dims",J::arr()).set("org",J::arr()).set("doff",J::arr()).set("dstr",J::arr());
  c.set("type","").set("ax",ax).set("v",J::arr()).set("dims",J::arr()).set("org",J::arr()).set("sp",J::arr());
  std::string ct=kind=="uniform"?"uniform":kind=="rectilinear"?"rectilinear":kind=="points"?std::string(g.chance(30)?"uniform":g.chance(40)?"rectilinear":"explicit"):"explicit"; c.set("type",ct);
  if(ct=="uniform"){ IV d; for(int i=0;i<td;i++) d.push_back(n[i]); c.set("dims",jints(d)); if(g.chance(60)){ IV o; for(int i=0;i<td;i++) o.push_back(U*g.range(-3,3)); c.set("org",jints(o)); } if(g.chance(70)){ IV s; for(int i=0;i<td;i++) s.push_back(U*g.range(1,3)); c.set("sp",jints(s)); } }
  else if(ct=="rectilinear"){ J v=J::arr(); for(int i=0;i<td;i++){ IV a; long long x=U*g.range(-3,3); for(int k=0;k<n[i];k++){ a.push_back(x); x+=U*g.range(1,3); } v.push(jints(a)); } c.set("v",v); }
  IV perm; long long np=(long long)n[0]*n[1]*n[2]; for(long long i=0;i<np;i++) perm.push_back(i);
  bool un=!(kind=="points"||kind=="uniform"||kind=="rectilinear"||kind=="structured"); if(un&&g.chance(60)) for(size_t i=perm.size();i>1;i--) std::swap(perm[i-1],perm[(size_t)g.below((int)i)]);
  if(ct=="explicit"){ std::vector<IV> v((size_t)td,IV((size_t)np)); for(int k=0;k<n[2];k++) for(int j=0;j<n[1];j++) for(int i=0;i<n[0];i++){ int q[3]={i,j,k}; for(int d=0;d<td;d++) v[(size_t)d][(size_t)perm[(size_t)lin(n,i,j,k)]]=10LL*U*q[d]+U*g.range(-3,3)+(d>=gd?U*g.range(0,9):0); } J vv=J::arr(); for(auto&a:v) vv.push(jints(a)); c.set("v",vv); }
  if(!un){ t.set("type",kind); if(kind=="structured"){ IV d,o; for(int i=0;i<td;i++){ d.push_back(e[i]); o.push_back(g.range(0,5)); } t.set("dims",jints(d)); if(g.chance(20)) t.set("org",jints(o));
      if(g.chance(35)){ IV of,st,dd; long long s=1; for(int i=0;i<td;i++){ int lo=g.range(0,2),hi=g.range(0,2); if(e[i]<=lo+hi) lo=hi=0; of.push_back(lo); st.push_back(s); s*=n[i]; dd.push_back(e[i]-lo-hi); } t.set("dims",jints(dd)).set("doff",jints(of)).set("dstr",jints(st)); } } m.set("c",c).set("t",t); return m; }
  t.set("type","unstructured").set("shape",kind); std::vector<IV> el; auto P=[&](int i,int j,int k){ return perm[(size_t)lin(n,i,j,k)]; };
  std::vector<IV> faces; // polyhedral
  if(kind=="point"){ for(long long i=0;i<np;i++) el.push_back({perm[(size_t)i]}); }
  else if(kind=="line"){ for(int k=0;k<n[2];k++) for(int j=0;j<n[1];j++) for(int i=0;i<n[0];i++){ if(i+1<n[0]) el.push_back({P(i,j,k),P(i+1,j,k)}); if(j+1<n[1]&&g.chance(50)) el.push_back({P(i,j,k),P(i,j+1,k)}); if(k+1<n[2]&&g.chance(50)) el.push_back({P(i,j,k+1),P(i,j,k)}); } }
  else if(gd==2){ for(int j=0;j<e[1];j++) for(int i=0;i<e[0];i++){ IV q={P(i,j,0),P(i+1,j,0),P(i+1,j+1,0),P(i,j+1,0)};
      if(kind=="tri"||(kind=="polygonal"&&g.chance(30))){ if(g.chance(50)){ el.push_back({q[0],q[1],q[2]}); el.push_back({q[0],q[2],q[3]}); } else { el.push_back({q[0],q[1],q[3]}); el.push_back({q[1],q[2],q[3]}); } }
      else if(kind=="polygonal"&&i+1<e[0]&&g.chance(40)){ el.push_back({P(i,j,0),P(i+1,j,0),P(i+2,j,0),P(i+2,j+1,0),P(i+1,j+1,0),P(i,j+1,0)}); i++; }
      else el.push_back(q); } }
  else { auto F=[&](IV f){ for(size_t q=0;q<faces.size();q++){ IV a=faces[q],b=f; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if(a==b) return (long long)q; } faces.push_back(f); return (long long)faces.size()-1; };
    for(int k=0;k<e[2];k++) for(int j=0;j<e[1];j++) for(int i=0;i<e[0];i++){ IV h={P(i,j,k),P(i+1,j,k),P(i+1,j+1,k),P(i,j+1,k),P(i,j,k+1),P(i+1,j,k+1),P(i+1,j+1,k+1),P(i,j+1,k+1)};
      if(kind=="hex") el.push_back(h);
      else if(kind=="tet"){ static const int T[6][4]={{0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6}}; for(auto&x:T) el.push_back({h[(size_t)x[0]],h[(size_t)x[1]],h[(size_t)x[2]],h[(size_t)x[3]]}); }
      else if(kind=="wedge"){ el.push_back({h[0],h[1],h[2],h[4],h[5],h[6]}); el.push_back({h[0],h[2],h[3],h[4],h[6],h[7]}); }
      else if(kind=="pyramid"){ el.push_back({h[0],h[1],h[2],h[3],h[6]}); el.push_back({h[0],h[4],h[5],h[1],h[6]}); el.push_back({h[0],h[3],h[7],h[4],h[6]}); }
      else { static const int Q[6][4]={{0,3,2,1},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{4,5,6,7}}; IV x; for(auto&f:Q){ IV ff={h[(size_t)f[0]],h[(size_t)f[1]],h[(size_t)f[2]],h[(size_t)f[3]]}; x.push_back(F(ff)); }
        if(i+1<e[0]&&g.chance(25)){ i++; IV h2={P(i,j,k),P(i+1,j,k),P(i+1,j+1,k),P(i,j+1,k),P(i,j,k+1),P(i+1,j,k+1),P(i+1,j+1,k+1),P(i,j+1,k+1)}; long long sh=x[2]; IV y; for(size_t z=0;z<6;z++) if(x[z]!=sh) y.push_back(x[z]); for(int z=0;z<6;z++) if(z!=4){ auto&f=Q[z]; y.push_back(F({h2[(size_t)f[0]],h2[(size_t)f[1]],h2[(size_t)f[2]],h2[(size_t)f[3]]})); } x=y; }
        el.push_back(x); } } }
  if(kind=="polygonal"&&g.chance(4)){ IV x; std::vector<IV> v((size_t)td); for(int i=0;i<40;i++){ x.push_back(i); for(int d=0;d<td;d++) v[(size_t)d].push_back(U*(d==0?i:(i*i*(d+1))%37)); } el={x,{3,1,0},{39,2,1,0}}; J vv=J::arr(); for(auto&a:v) vv.push(jints(a)); c.set("v",vv); }
  if(O.drop&&el.size()>1&&g.chance(40)){ std::vector<IV> k; for(auto&x:el) if(g.chance(75)) k.push_back(x); if(!k.empty()) el=k; }
  if(g.chance(40)) for(size_t i=el.size();i>1;i--) std::swap(el[i-1],el[(size_t)g.below((int)i)]);
  if(gd==2) for(auto&x:el) if(g.chance(30)) std::rotate(x.begin(),x.begin()+1,x.end());
  if(kind=="polyhedral"){ // keep only the faces in use
    std::map<long long,long long> re; std::vector<IV> f2; for(auto&x:el) for(auto&f:x){ if(!re.count(f)){ re[f]=(long long)f2.size(); f2.push_back(faces[(size_t)f]); } f=re[f]; } faces=f2; }
  IV conn,sz,of,sc,ss,so; bool gap=O.gaps&&(kind=="polygonal")&&g.chance(15); for(auto&x:el){ if(gap&&g.chance(40)) conn.push_back(0); of.push_back((long long)conn.size()); sz.push_back((long long)x.size()); for(auto y:x) conn.push_back(y); }
  t.set("conn",jints(conn)); if(kind=="polygonal"||kind=="polyhedral"){ t.set("sizes",jints(sz)); if(gap||g.chance(70)) t.set("offsets",jints(of)); }
  else if(g.chance(10)) t.set("offsets",jints(of));
  if(kind=="polyhedral"){ for(auto&x:faces){ so.push_back((long long)sc.size()); ss.push_back((long long)x.size()); for(auto y:x) sc.push_back(y); } t.set("sshape","polygonal").set("sconn",jints(sc)).set("ssizes",jints(ss)); if(g.chance(60)) t.set("soffsets",jints(so)); }
  m.set("c",c).set("t",t); return m;
}
inline void build_mesh(Node&m,const J&j,const J&how,Arena&A){ Build B(how,A); build_coords(m["coordsets/coords"],j["c"],B); build_topo(m["topologies/topo"],j["t"],"coords",B); }
} // namespace vh
#endif
